"""C01-C05: hash functions."""
from plans import *

HG = 'hash/HashGen.tla'
HSUB = dict(Nothing='GNothing', Absorb='GAbsorb', Out='GOut', Cat='GCat', LenOf='GLen')
SHA3 = ['SHA3-224', 'SHA3-256', 'SHA3-384', 'SHA3-512']
XOF = ['SHAKE128', 'SHAKE256', 'cSHAKE128', 'cSHAKE256']
HASH_CFG = mkcfg(subst=dict(Nothing='TrNothing', Absorb='TrAbsorb', Out='TrOut', Cat='TrCat', LenOf='Len'),
                 lines=TRACE_LINES)


def hgen(algs, ops, depth, objs=('a', 'b'), total=1400, lens='Around', bfs=False):
    lines = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']
    lines += ['VIEW ShapeView', 'ACTION_CONSTRAINT EmitTransition'] if bfs else ['INVARIANT EmitAtDepth']
    return mkcfg(dict(Objs=set(objs), Algs=set(algs), Ops=set(ops), MaxTotal=total, Depth=depth),
                 dict(HSUB, Lens=lens), lines)


def hmat(hist, m, close=True):
    """lengths -> bytes; ends every object's history with an observation of its state"""
    ops, live = [], {}
    for h in hist:
        o = dict(h)
        if h['op'] == 'h.new':
            o['N'], o['S'] = m.bytes(o.pop('Nlen')), m.bytes(o.pop('Slen'))
            live[h['o']] = h['alg']
        elif h['op'] in ('h.write', 'h.shakesum'):
            o['d'] = m.bytes(o.pop('dlen'))
            if not o['d'] and m.r.random() < .5:
                o['d.nil'] = True
            o['d.spare'] = m.r.choice([0, 0, 3, 200])
        elif h['op'] == 'h.sum':
            k = o.pop('inlen')
            o['in'] = m.bytes(k)
            o['in.spare'] = o.pop('inspare')
            if k == 0 and o['in.spare'] == 0:
                o['in.nil'] = True
        elif h['op'] == 'h.reset' and live[h['o']] == 'SM3':
            o['init'] = m.r.random() < .3
        elif h['op'] == 'h.clone':
            live[h['to']] = live[h['o']]
        ops.append(o)
    if close:
        for o, alg in sorted(live.items()):
            if alg in XOF:
                ops.append({'op': 'h.read', 'o': o, 'n': m.r.choice([16, 32, 64, 200])})
            else:
                ops.append({'op': 'h.sum', 'o': o, 'in': '', 'in.nil': True, 'in.spare': 0})
    return ops


def scr(ctx, hists, tag, close=True):
    m = Mat(ctx.rng_seed('mat', tag))
    return [{'ops': hmat(h, m, close)} for h in hists]


def builds(ctx, names):
    return dict(zip(names, parallel([lambda n=n: driver_for(ctx, n) for n in names])))


RATE = {'SHA3-224': 144, 'SHA3-256': 136, 'SHA3-384': 104, 'SHA3-512': 72, 'SHAKE128': 168, 'SHAKE256': 136, 'cSHAKE128': 168, 'cSHAKE256': 136}


def bigscripts(ctx):
    """long messages in one Write, long outputs in one Read, long N and S (their bit lengths need 3, 4 and 5 bytes)"""
    m = Mat(ctx.rng_seed('big'))
    sc = []

    def one(alg, blocks, glue, reads, Nk=0, Sk=0, N='', S='', again=False):
        r = RATE[alg]
        ops = [{'op': 'h.newrep', 'o': 'a', 'alg': alg, 'unit': m.rand(r), 'Nk': Nk, 'Sk': Sk, 'N': N, 'S': S},
               {'op': 'h.write', 'o': 'a', 'd': m.rand(m.r.randrange(2 * r))}]
        if blocks:
            ops.append({'op': 'h.wrep', 'o': 'a', 'd': m.rand(r), 'k': blocks, 'glue': glue})
        ops.append({'op': 'h.write', 'o': 'a', 'd': m.rand(m.r.randrange(2 * r))})
        if again:
            ops += [{'op': 'h.reset', 'o': 'a'}, {'op': 'h.write', 'o': 'a', 'd': m.rand(5)}]
        if alg in XOF:
            ops += [{'op': 'h.read', 'o': 'a', 'n': n} for n in reads]
        else:
            ops.append({'op': 'h.sum', 'o': 'a', 'in': '', 'in.nil': True, 'in.spare': 0})
        sc.append({'ops': ops, 'cost': blocks + Nk + Sk + sum(reads) // 20 + 500})
    for alg in SHA3 + XOF:
        r = RATE[alg]
        # one Write of 64 KiB and a little less or more, 256 KiB, 1 MiB
        # and of a few more than 2^16 blocks
        for n in (65536 // r, 65536 // r + 1, 262144 // r + 1, 1048576 // r + 1, 65536 + 1 + m.r.randrange(5)):
            one(alg, n, n, [32])
        one(alg, 3 * (m.r.randrange(100, 400)), 3, [r])
    for alg in XOF:
        for n in (4096, 32768 + 1, 65536, 65537, 70000):
            one(alg, 0, 1, [m.r.randrange(200), n, 40])
    for alg in XOF[2:]:
        r = RATE[alg]
        for z in (32, 8192, 65536, 2097152):       # bytes: 256, 2^16, 2^19, 2^24 bits
            for d in (-1, 0, 1):
                for which in 'NS' if z < 2097152 or d == 0 else m.r.choice(['N', 'S']):
                    rest = m.rand((z + d) % r)
                    one(alg, 0, 1, [50], **{which + 'k': (z + d) // r, which: rest}, again=m.r.random() < .4)
    # outputs of more than 2^16 blocks: in one Read, in a few; clones of an object that far on
    for alg in XOF:
        r = RATE[alg]
        pre = m.r.randrange(r)
        n = 65536 * r + m.r.randrange(3 * r)
        for reads in [[pre, n, 1], [n // 2 - pre, n // 2 + 7, 3 * r], [n, n]][: 3 if ctx.thorough else 2]:
            ops = [{'op': 'h.newrep', 'o': 'a', 'alg': alg, 'unit': m.rand(r), 'Nk': 0, 'Sk': 0, 'N': '', 'S': m.rand(9)},
                   {'op': 'h.write', 'o': 'a', 'd': m.rand(m.r.randrange(2 * r))}]
            for x in reads:
                ops.append({'op': 'h.skim', 'o': 'a', 'n': x})
            ops += [{'op': 'h.clone', 'o': 'a', 'to': 'b'}, {'op': 'h.read', 'o': 'b', 'n': 99}, {'op': 'h.read', 'o': 'a', 'n': 99},
                    {'op': 'h.reset', 'o': 'b'}, {'op': 'h.write', 'o': 'b', 'd': m.rand(9)}, {'op': 'h.read', 'o': 'b', 'n': 99}]
            sc.append({'ops': ops, 'cost': n // 10})
    # 512 MiB: the length in bits does not fit into 32 bits, and 4 GiB and more
    one('cSHAKE256', 0, 1, [40], Sk=(1 << 29) // 136 + 1, again=True)
    one('SHA3-256', (1 << 29) // 136 + 1, 1, [])
    if ctx.thorough:
        one('cSHAKE128', 0, 1, [40], Nk=(1 << 29) // 168 + 1)
        one('SHA3-512', (1 << 32) // 72 + 9, 1, [])
        one('SHAKE128', 64 * ((1 << 32) // 168 // 64 + 1), 64, [40])
    return sc


def nsscripts(ctx, k):
    """function names and customization strings that share their bytes: the same concatenation cut at other places,
    swapped, one empty, one a part of the other, for both rates, one after the other in one process"""
    m = Mat(ctx.rng_seed('ns'))
    sc = []
    for i in range(k):
        w = m.rand(m.r.choice([1, 2, 3, 8, 20, 40, 150, 300]))
        n = len(w) // 2
        cuts = sorted({0, n} | {m.r.randrange(n + 1) for _ in range(3)})
        ns = [(w[:2 * c], w[2 * c:]) for c in cuts]
        c = m.r.randrange(n + 1)
        ns += [(w[2 * c:], w[:2 * c]), (w, w), (w[:2 * c], ''), ('', w[:2 * c]), ('', '')]
        m.r.shuffle(ns)
        for j in range(0, len(ns), 3):
            ops = []
            d = m.bytes(m.r.choice([0, 1, 30]))
            for x, (N, S) in zip('abc', ns[j:j + 3]):
                ops.append({'op': 'h.new', 'o': x, 'alg': m.r.choice(XOF[2:]), 'N': N, 'S': S})
            for x in 'abc'[:len(ns[j:j + 3])]:
                ops += [{'op': 'h.write', 'o': x, 'd': d}, {'op': 'h.read', 'o': x, 'n': 24}]
                if m.r.random() < .3:
                    ops += [{'op': 'h.reset', 'o': x}, {'op': 'h.read', 'o': x, 'n': 10}]
            sc.append({'ops': ops})
    return sc


@plan('C01')
def c01(ctx):
    big = ctx.thorough
    vs = ['hash', 'hash-noasm', 'hash-appengine']
    drv = parallel([lambda: builds(ctx, vs), ctx.ov])[0]
    d = 3 if not big else 4
    jobs = [
        lambda: ctx.mc('hash/SpongeImpl.tla', os.path.join(SPEC, 'hash', 'SpongeImpl_Dig.cfg'), 'digest'),
        lambda: ctx.mc('hash/SpongeImpl.tla', os.path.join(SPEC, 'hash', 'SpongeImpl_Xof.cfg'), 'xof'),
        lambda: ctx.gen_bfs(HG, hgen(SHA3, ['new', 'write'], d, 'a', bfs=True), 'sha3 chunkings', None if big else 900),
        lambda: ctx.gen_bfs(HG, hgen(XOF[:2], ['new', 'write', 'read'], d + 1, 'a', bfs=True), 'shake chunkings', 9000 if big else 1200),
        lambda: ctx.gen_bfs(HG, hgen(SHA3 + XOF[:2], ['new', 'write'], 2, 'a', 700 if big else 345, lens='Every', bfs=True),
                            'every length', None if big else 1400),
        lambda: ctx.gen_sim(HG, hgen(XOF[2:], ['new', 'write', 'read'], 4, 'a'), 4000 if big else 500, 5, 'cshake'),
        lambda: ctx.gen_sim(HG, hgen(XOF[:2], ['oneshot'], 2, 'a'), 600 if big else 100, 3, 'one shot'),
        lambda: ctx.gen_sim(HG, hgen(SHA3 + XOF, ['new', 'write', 'read'], 10, 'ab', 6000), 1000 if big else 60, 11, 'long'),
    ]
    r = parallel(jobs)
    ctx.add_mc(r[0]); ctx.add_mc(r[1])
    s = [h for hs in r[2:] for h in hs]
    sc = scr(ctx, s, 'C01') + nsscripts(ctx, 200 if big else 24)
    if not ctx.conform('values', drv['hash'], sc, 'hash/HashTrace.tla', HASH_CFG):
        return
    bs = bigscripts(ctx)
    if not ctx.conform('large', drv['hash'], bs, 'hash/BigTrace.tla', HASH_CFG, cost=lambda s: s['cost'], xmx='4g'):
        return
    # the portable permutation and the portable buffer code on a part (thorough: all) of them
    part = sc if big else sc[::6]
    for v in vs[1:]:
        if not ctx.conform(v, drv[v], part, 'hash/HashTrace.tla', HASH_CFG):
            return
    some = [x for x in bs if x['cost'] < 20000]
    ctx.conform('large, portable', drv[vs[2]], some if big else some[::4], 'hash/BigTrace.tla', HASH_CFG, cost=lambda s: s['cost'])


@plan('C02')
def c02(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'hash'), ctx.ov])[0]
    ops = ['new', 'write', 'sum', 'reset', 'size']
    r = parallel([
        lambda: ctx.mc('hash/MC_HashObj.tla', os.path.join(SPEC, 'hash', 'MC_HashObj_Dig.cfg'), 'digest objects'),
        lambda: ctx.mc('hash/SpongeImpl.tla', os.path.join(SPEC, 'hash', 'SpongeImpl_Dig.cfg'), 'digest'),
        lambda: ctx.gen_bfs(HG, hgen(SHA3, ops, 5 if big else 4, 'a', bfs=True), 'transitions', 20000 if big else 1500),
        lambda: ctx.gen_sim(HG, hgen(SHA3, ops, 14), 6000 if big else 500, 15, 'histories'),
    ])
    ctx.add_mc(r[0]); ctx.add_mc(r[1])
    ctx.conform('contract', drv, scr(ctx, r[2] + r[3], 'C02'), 'hash/HashTrace.tla', HASH_CFG, ['contract'])


@plan('C03')
def c03(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'hash'), ctx.ov])[0]
    ops = ['new', 'write', 'read', 'clone', 'reset']
    r = parallel([
        lambda: ctx.mc('hash/MC_HashObj.tla', os.path.join(SPEC, 'hash', 'MC_HashObj_Xof.cfg' if big else 'MC_HashObj_Xof2.cfg'), 'xof objects'),
        lambda: ctx.mc('hash/SpongeImpl.tla', os.path.join(SPEC, 'hash', 'SpongeImpl_Xof.cfg'), 'xof'),
        lambda: ctx.gen_bfs(HG, hgen(XOF[:2], ops, 5 if big else 4, 'ab', bfs=True), 'transitions', 20000 if big else 1500),
        lambda: ctx.gen_sim(HG, hgen(XOF, ops, 16, 'abc'), 6000 if big else 600, 17, 'histories'),
    ])
    ctx.add_mc(r[0]); ctx.add_mc(r[1])
    ctx.conform('contract', drv, scr(ctx, r[2] + r[3], 'C03') + nsscripts(ctx, 60 if big else 8), 'hash/HashTrace.tla', HASH_CFG, ['contract'])


SM3_CFG = HASH_CFG
# total length of a long message -> blocks written, and how many blocks each Write gets
LONG = [(1 << 23, 1 << 14), ((1 << 23) + 5, 1), (1 << 26, 1 << 16), (3 * (1 << 16) + 9, 3 * (1 << 16) + 9)]


def sm3long(ctx, which):
    """Messages of 512 MB and 4 GB and a little more or less: the bit length then exceeds
    32 bits, the byte length too."""
    m = Mat(ctx.rng_seed('sm3long'))
    r = []
    for k, (blocks, glue) in enumerate(which):
        for pre, post in [(0, 0), (13, 50), (61, 64)][:2 if ctx.thorough else 1] if k else [(5, 60)]:
            r.append({'ops': [{'op': 'h.new', 'o': 'a', 'alg': 'SM3', 'N': '', 'S': ''},
                              {'op': 'h.write', 'o': 'a', 'd': m.bytes(pre)},
                              {'op': 'h.wrep', 'o': 'a', 'd': m.rand(64), 'k': blocks, 'glue': glue},
                              {'op': 'h.write', 'o': 'a', 'd': m.bytes(post)},
                              {'op': 'h.sum', 'o': 'a', 'in': '', 'in.nil': True, 'in.spare': 0}]})
    return r


@plan('C04')
def c04(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'hash'), ctx.ov])[0]
    r = parallel([
        lambda: ctx.mc('hash/SM3Impl.tla', os.path.join(SPEC, 'hash', 'SM3Impl.cfg'), 'sm3'),
        lambda: ctx.gen_bfs(HG, hgen(['SM3'], ['new', 'write'], 5 if big else 4, 'a', bfs=True), 'chunkings', 20000 if big else 2500),
        lambda: ctx.gen_bfs(HG, hgen(['SM3'], ['new', 'write'], 2, 'a', 1000 if big else 400, lens='Every', bfs=True), 'every length'),
        lambda: ctx.gen_sim(HG, hgen(['SM3'], ['new', 'write'], 12, 'ab', 4000), 4000 if big else 400, 12, 'long histories'),
    ])
    ctx.add_mc(r[0])
    ok = ctx.conform('values', drv, scr(ctx, r[1] + r[2] + r[3], 'C04'), 'hash/SM3Trace.tla', SM3_CFG)
    if ok:
        ctx.conform('long', drv, sm3long(ctx, LONG), 'hash/SM3Trace.tla', SM3_CFG,
                    cost=lambda s: s['ops'][2]['k'])


@plan('C05')
def c05(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'hash'), ctx.ov])[0]
    ops = ['new', 'write', 'sum', 'reset', 'size']
    r = parallel([
        lambda: ctx.mc('hash/MC_HashObj.tla', os.path.join(SPEC, 'hash', 'MC_HashObj_Dig.cfg'), 'digest objects'),
        lambda: ctx.mc('hash/SM3Impl.tla', os.path.join(SPEC, 'hash', 'SM3Impl.cfg'), 'sm3'),
        lambda: ctx.gen_bfs(HG, hgen(['SM3'], ops, 5 if big else 4, 'a', bfs=True), 'transitions', 20000 if big else 2500),
        lambda: ctx.gen_sim(HG, hgen(['SM3'], ops, 16), 6000 if big else 600, 16, 'histories'),
    ])
    ctx.add_mc(r[0]); ctx.add_mc(r[1])
    ctx.conform('contract', drv, scr(ctx, r[2] + r[3], 'C05'), 'hash/SM3Trace.tla', SM3_CFG, ['contract'])
