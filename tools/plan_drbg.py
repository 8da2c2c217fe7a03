"""C06-C08: DRBG and AES."""
from plans import *
import itertools

DG = 'drbg/DrbgGen.tla'
DRBG_CFG = mkcfg(subst=dict(InstantiateOp='TrInst', ReseedOp='TrReseed', GenerateOp='TrGen', Enough='TrEnough'),
                 lines=TRACE_LINES)
# AES-256 under the zero key of the counters 1, 2, 3: what Init adds to the seed material.
# Only used to choose seeds whose V is about to carry.
T0 = bytes.fromhex('530f8afbc74536b9a963b4f1c4cb738bcea7403d4d606b6e074ec5d3baf39d18726003ca37a62a74d1a2f58e7506358e')
ALL_ENT = {32, 33, 40, 47, 48, 49, 64, 100}
SHORT_ENT = {0, 1, 16, 31}
ADD = {0, 1, 15, 32, 47, 48, 49, 70}
OUTS = {0, 1, 15, 16, 17, 31, 32, 33, 48, 100, 257}


def dgen(ops, depth, objs='ab', ent=None, add=ADD, outs=OUTS, carries=(0,), spy=False, bfs=False):
    lines = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']
    lines += ['VIEW ShapeView', 'ACTION_CONSTRAINT EmitTransition'] if bfs else ['INVARIANT EmitAtDepth']
    return mkcfg(dict(Objs=set(objs), Ops=set(ops), EntLens=set(ent or ALL_ENT | SHORT_ENT), AddLens=set(add),
                      OutLens=set(outs), Carries=set(carries), Spy=spy, Depth=depth),
                 dict(InstantiateOp='GInst', ReseedOp='GReseed', GenerateOp='GGen', Enough='GEnough'), lines)


def dmat(hist, m):
    ops = []
    for h in hist:
        o = dict(h)
        def inp(name, n):
            o[name] = m.bytes(n)
            o[name + '.spare'] = m.r.choice([0, 0, 60])
            if n == 0 and m.r.random() < .5:
                o[name + '.nil'] = True
        if h['op'] == 'd.init':
            inp('pers', o.pop('perslen'))
            n, c = o.pop('entlen'), o.pop('carry')
            inp('ent', n)
            if c:
                # V after Init ends in c bytes ff (or c-1 and fe): counting carries into byte c
                v = bytearray(m.r.randbytes(16))
                v[16 - c:] = b'\xff' * c
                v[15] -= m.r.choice([0, 0, 1, 2, 3])
                if c < 16 and m.r.random() < .5:
                    v[15 - c] = m.r.choice([0, 0x7f, 0x80, 0xfe])
                pers = bytes.fromhex(o['pers'])[:48].ljust(48, b'\0')
                ent = bytearray(bytes.fromhex(o['ent']))
                for i in range(16):
                    ent[32 + i] = v[i] ^ T0[32 + i] ^ pers[32 + i]
                o['ent'] = bytes(ent).hex()
        elif h['op'] == 'd.reseed':
            inp('ent', o.pop('entlen'))
            inp('ad', o.pop('adlen'))
        elif h['op'] == 'd.gen':
            inp('ad', o.pop('adlen'))
            o['out.spare'] = m.r.choice([0, 0, 40])
        ops.append(o)
    live = [o for o in dict.fromkeys(h['o'] for h in hist if h['op'] == 'd.init')
            if any(h['op'] == 'd.init' and h['o'] == o and h['entlen'] >= 32 for h in hist)]
    for o in live:
        ops.append({'op': 'd.gen', 'o': o, 'n': 37, 'ad': '', 'read': True})
    return ops


def dscr(ctx, hists, tag):
    m = Mat(ctx.rng_seed('mat', tag))
    return [{'ops': dmat(h, m)} for h in hists]


def dcost(s):
    return s.get('cost', 10 + sum(6 + o.get('n', 0) // 16 for o in s['ops']))


def dlong(ctx, tag, spy, reqs, calls):
    """long requests (several with a counter that carries on the way) and objects with a long life"""
    m = Mat(ctx.rng_seed('dlong', tag))
    sc = []
    def start(c=0):
        h = [{'op': 'd.new', 'o': 'a', 'spy': spy}, {'op': 'd.init', 'o': 'a', 'entlen': 48, 'perslen': 0, 'carry': c}]
        return dmat(h, m)[:2]
    for n in reqs:
        ops = start()
        ad = m.r.choice([0, 20])
        ops += [{'op': 'd.gen', 'o': 'a', 'n': n, 'ad': m.rand(ad), 'read': not ad},
                {'op': 'd.gen', 'o': 'a', 'n': 33, 'ad': '', 'read': True}]
        sc.append({'ops': ops, 'cost': n // 16})
    for c in range(2, 17):
        ops = start(c)
        ops += [{'op': 'd.gen', 'o': 'a', 'n': m.r.choice([300, 4096, 4100]), 'ad': '', 'read': True}]
        sc.append({'ops': ops, 'cost': 300})
    for n in calls:
        ops = start()
        for i in range(n):
            ad = m.r.choice([0, 0, 0, 16, 48])
            ops.append({'op': 'd.gen', 'o': 'a', 'n': m.r.choice([1, 16, 20, 32]), 'ad': m.rand(ad), 'read': not ad})
            if i == n // 2 and n % 2:
                ops.append({'op': 'd.reseed', 'o': 'a', 'ent': m.rand(48), 'ad': ''})
        sc.append({'ops': ops, 'cost': n * 6})
    return sc


@plan('C06')
def c06(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'drbg'), ctx.ov])[0]
    ops = ['init', 'reseed', 'gen']
    r = parallel([
        lambda: ctx.mc('drbg/DrbgImpl.tla', os.path.join(SPEC, 'drbg', 'DrbgImpl.cfg'), 'one object'),
        lambda: ctx.mc('drbg/DrbgImpl.tla', os.path.join(SPEC, 'drbg', 'DrbgImpl_2.cfg'), 'two objects'),
        lambda: ctx.gen_bfs(DG, dgen(ops, 5, 'a', outs=OUTS | {5, 47, 64} , bfs=True), 'transitions', None if big else 2500),
        lambda: ctx.gen_sim(DG, dgen(ops, 12), 6000 if big else 700, 12, 'histories'),
        lambda: ctx.gen_sim(DG, dgen(ops, 5, 'a', ent={48, 64}, outs={16, 40, 100}, carries=range(1, 17)),
                            3000 if big else 400, 5, 'carries'),
        lambda: ctx.gen_sim(DG, dgen(ops, 5, 'a', ent={48}, outs={4096, 5000, 70000 if big else 9000}), 200 if big else 20, 5, 'long requests'),
    ])
    ctx.add_mc(r[0]); ctx.add_mc(r[1])
    sc = dscr(ctx, [h for x in r[2:] for h in x], 'C06')
    sc += dlong(ctx, 'C06', False, [65536, 65537, 70001, 1048593] * (4 if big else 1), [300, 701] + ([70001, 20000] if big else []))
    if ctx.conform('hardware', drv, sc, 'drbg/DrbgTrace.tla', DRBG_CFG, ['values'], cost=dcost):
        ctx.conform('tables', drv, sc if big else sc[::5], 'drbg/DrbgTrace.tla', DRBG_CFG, ['values'], cost=dcost, env={'VH_HIDE': 'aes'})


@plan('C07')
def c07(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'drbg'), ctx.ov])[0]
    ops = ['init', 'short', 'reseed', 'gen']
    r = parallel([
        lambda: ctx.mc('drbg/DrbgImpl.tla', os.path.join(SPEC, 'drbg', 'DrbgImpl.cfg'), 'one object'),
        lambda: ctx.mc('drbg/DrbgImpl.tla', os.path.join(SPEC, 'drbg', 'DrbgImpl_2.cfg'), 'two objects'),
        lambda: ctx.gen_bfs(DG, dgen(ops, 6, 'a', add={0, 1, 48, 50}, spy=True, bfs=True), 'transitions', None if big else 1500),
        lambda: ctx.gen_sim(DG, dgen(ops, 14, spy=True), 5000 if big else 600, 14, 'histories'),
        lambda: ctx.gen_sim(DG, dgen(ops, 6, 'a', ent={16, 48, 64}, outs={16, 40, 100, 600}, carries=range(1, 17), spy=True),
                            3000 if big else 300, 6, 'carries'),
        lambda: ctx.gen_sim(DG, dgen(ops, 5, 'a', ent={48}, outs={4096, 5000, 70000 if big else 9000}, spy=True), 100 if big else 16, 5, 'long requests'),
    ])
    ctx.add_mc(r[0]); ctx.add_mc(r[1])
    sc = dscr(ctx, [h for x in r[2:] for h in x], 'C07')
    sc += dlong(ctx, 'C07', True, [65536, 70001] + ([1048593] if big else []), [301] + ([9001] if big else []))
    if ctx.conform('hardware', drv, sc, 'drbg/DrbgTrace.tla', DRBG_CFG, ['fresh'], cost=dcost):
        ctx.conform('tables', drv, sc if big else sc[::5], 'drbg/DrbgTrace.tla', DRBG_CFG, ['fresh'], cost=dcost, env={'VH_HIDE': 'aes'})


AES_CFG = mkcfg(subst=dict(EncFn='TrEnc', DecFn='TrDec', ValidKey='TrValid'), lines=TRACE_LINES)
AG = 'aes/AesGen.tla'


def agen(depth, objs='ab', kinds=('go', 'asm'), bfs=False, keylens=(16, 24, 32, 0, 1, 8, 15, 17, 23, 25, 31, 33, 40, 48, 64)):
    lines = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']
    lines += ['VIEW ShapeView', 'ACTION_CONSTRAINT EmitTransition'] if bfs else ['INVARIANT EmitAtDepth']
    return mkcfg(dict(Objs=set(objs), Kinds=set(kinds), KeyLens=set(keylens),
                      Classes={'rand', 'zero', 'ones', 'bit'}, Shorts={0, 1, 15}, Depth=depth),
                 dict(EncFn='GEnc', DecFn='GDec', ValidKey='GValid'), lines)


def cls(m, c, n):
    if c == 'rand' or n == 0:
        return m.rand(n)
    if c == 'bit':
        b = bytearray(n)
        b[m.r.randrange(n)] = 1 << m.r.randrange(8)
        return bytes(b).hex()
    return ('00' if c == 'zero' else 'ff') * n


def amat(hist, m):
    ops = []
    for h in hist:
        o = dict(h)
        if h['op'] == 'a.key':
            o['key'] = cls(m, o.pop('cls'), o.pop('keylen'))
            o['key.spare'] = m.r.choice([0, 16])
        elif h['op'] == 'a.crypt':
            o['src'] = cls(m, o.pop('cls'), o.pop('srclen'))
        ops.append(o)
    return ops


def sweep(ctx, m, n):
    """n random keys per length and back end; both directions, apart and in place"""
    r = []
    for kind in ('go', 'asm'):
        for kl in (16, 24, 32):
            for _ in range(n):
                ops = [{'op': 'a.new', 'o': 'a', 'kind': kind}, {'op': 'a.key', 'o': 'a', 'key': m.rand(kl)}]
                for d in ('enc', 'dec'):
                    for same in (False, True):
                        ops.append({'op': 'a.crypt', 'o': 'a', 'dir': d, 'src': m.rand(16), 'same': same, 'dlen': 16})
                r.append({'ops': ops})
    # every byte value at every position of block and key
    for kind in ('go', 'asm'):
        for pos in range(16):
            ops = [{'op': 'a.new', 'o': 'a', 'kind': kind}, {'op': 'a.key', 'o': 'a', 'key': m.rand(32)}]
            base = m.r.randbytes(16)
            for v in range(0, 256, 1 if ctx.thorough else 5):
                b = bytearray(base)
                b[pos] = v
                for d in ('enc', 'dec'):
                    ops.append({'op': 'a.crypt', 'o': 'a', 'dir': d, 'src': bytes(b).hex(), 'same': False, 'dlen': 16})
            r.append({'ops': ops})
    return r


@plan('C08')
def c08(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'aes'), ctx.ov])[0]
    r = parallel([
        lambda: ctx.mc('aes/AesImpl.tla', os.path.join(SPEC, 'aes', 'AesImpl.cfg'), 'key schedules'),
        lambda: ctx.gen_bfs(AG, agen(6, bfs=True, objs='a'), 'transitions', 20000 if big else 3000),
        lambda: ctx.gen_sim(AG, agen(14), 8000 if big else 800, 14, 'histories'),
    ])
    ctx.add_mc(r[0])
    m = Mat(ctx.rng_seed('mat', 'C08'))
    sc = [{'ops': amat(h, m)} for x in r[1:] for h in x] + sweep(ctx, m, 400 if big else 60)
    ctx.conform('blocks', drv, sc, 'aes/AesTrace.tla', AES_CFG)
