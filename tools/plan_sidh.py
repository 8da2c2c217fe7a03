"""C10-C14: SIDH and SIKE keys, SIKE KEM."""
import re
from plans import *

SG = 'sidh/SidhGen.tla'
SIDH_CFG = mkcfg(subst=dict(PubFn='TrPub', SharedFn='TrShared', ClampFn='TrClamp', SLen='TrSLen', ValLen='TrValLen',
                            SecretLen='SsSize', LenOf='TrLen', Cut='TrCut', Zeros0='Zeros', JoinFn='TrJoin', Unknown='TrUnknown',
                            EncapsFn='TrEncaps', DecapsFn='TrDecaps', MLen='MsgLen', CtLen='CtSize', SsLen='MsgLen'),
                 lines=TRACE_LINES)
PR = {'p434': 2**216 * 3**137 - 1, 'p503': 2**250 * 3**159 - 1, 'p751': 2**372 * 3**239 - 1}
FB = {'p434': 55, 'p503': 63, 'p751': 94}
ML = {'p434': 16, 'p503': 24, 'p751': 32}
EA = {'p434': 216, 'p503': 250, 'p751': 372}
EB = {'p434': 217, 'p503': 252, 'p751': 378}
PCOST = {'p434': 1, 'p503': 1.6, 'p751': 4}
FIELDS = ('p434', 'p503', 'p751')
ALLMUT = ('c0bit', 'c0first', 'c0last', 'c1bit', 'c1first', 'c1last', 'two', 'rand', 'zero', 'addp', 'ones', 'c1rand')


def nbytes(f, v):
    return 28 if f == 'p434' else 32 if f == 'p503' else 47 if v == 'A' else 48


def impl_mc(ctx):
    cfg = 'SidhImpl2.cfg' if ctx.thorough else 'SidhImpl.cfg'
    return ctx.mc('sidh/SidhImpl.tla', os.path.join(SPEC, 'sidh', cfg), 'keys and KEM objects, up to %d encapsulations' % (2 if ctx.thorough else 1))


def sgen(ops, depth, prvs='a', pubs='x', kems='', fields=('p434',), pv='ABS', qv='ABS', one=True, mks=('sidh',),
         mut=(), bfs=False):
    lines = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']
    lines += ['VIEW Shape', 'ACTION_CONSTRAINT EmitTransition'] if bfs else ['INVARIANT EmitAtDepth']
    n = len(prvs) + len(pubs) + len(kems)
    return mkcfg(dict(Prvs=set(prvs), Pubs=set(pubs), Kems=set(kems), Fields=set(fields), PrvVars=set(pv), PubVars=set(qv),
                      OneField=one, Mks=set(mks), Ops=set(ops), MutPos=set(mut) or {'c0bit'}, Depth=depth + n),
                 dict(PubFn='GPub', SharedFn='GShared', ClampFn='GClamp', SLen='GSLen', ValLen='GValLen', SecretLen='GSec',
                      LenOf='GLenOf', Cut='GCut', Zeros0='GZeros', JoinFn='GJoin', Unknown='GUnknown', EncapsFn='GEncaps',
                      DecapsFn='GDecaps', MLen='MsgLen', CtLen='GCt', SsLen='MsgLen'), lines), depth + n


def scalar(m, f, v, edge):
    n = EA[f] if v == 'A' else EB[f]
    L = nbytes(f, v)
    x = m.r.getrandbits(n)
    if edge:
        x = m.r.choice([0, 1, 2, 3, 2**n - 1, 2**n - 2, 2**(n - 1), 2**(n - 1) - 1, 1 << m.r.randrange(n),
                        (1 << n) - 1 - (1 << m.r.randrange(n)), int('55' * 60, 16) % 2**n, x >> m.r.randrange(n)])
    return x.to_bytes(L, 'little')


def coord(m, f, edge):
    p = PR[f]
    x = m.r.randrange(p)
    if edge:
        x = m.r.choice([0, 1, 2, p - 1, p - 2, p // 2, (p + 1) // 2, x, 2**(p.bit_length() - 1), x >> m.r.randrange(p.bit_length())])
    return x.to_bytes(FB[f], 'little')


def smat(hist, m):
    uses = any(h['op'] in ('k.pubgen', 'k.derive', 'e.enc', 'e.dec') for h in hist)
    ops, undo = [], {}
    for h in hist:
        o = dict(h)
        op = h['op']
        if op in ('k.prv', 'k.pub', 'k.pubgen', 'k.derive', 'k.gen'):
            o['alt'] = m.r.random() < .3
        if op == 'k.imp':
            n, c, kind, f, v = (o.pop(x) for x in ('len', 'cls', 'kind', 'f', 'v'))
            if c == 'bad':
                d = m.r.randbytes(n)
            elif kind == 'pub':
                d = b''.join(coord(m, f, c == 'edge') for _ in range(6))
            elif uses:
                d = scalar(m, f, v, c == 'edge')
                if v == 'S':
                    d = bytes.fromhex(m.bytes(ML[f])) + d
            else:
                d = bytes.fromhex(m.bytes(n)) if c == 'edge' else m.r.randbytes(n)
            o['data'] = d.hex()
            o['data.spare'] = m.r.choice([0, 0, 50])
        elif op == 'k.gen':
            o['rng'] = m.bytes(o.pop('rnglen'))
        elif op == 'k.derive':
            o['ss.spare'] = m.r.choice([0, 0, 40])
        elif op == 'e.enc':
            o['rng'] = m.bytes(o.pop('rnglen'))
            o['ct.spare'], o['ss.spare'] = m.r.choice([0, 0, 40]), m.r.choice([0, 0, 40])
        elif op == 'e.dec':
            if 'ctlen' in o:
                o['ct'] = m.rand(o.pop('ctlen'))
            else:
                f, c = o.pop('f'), o.pop('cls')
                mutate(o, m, c, f)
            o['ctin.spare'] = m.r.choice([0, 0, 60])
        elif op == 'm.enc':
            o['rng'] = m.bytes(o.pop('rnglen'))
            o['ss.spare'] = m.r.choice([0, 0, 40])
        elif op == 'm.tamper':
            f, c = o.pop('f'), o.pop('cls')
            if c == 'undo':
                o['mut'] = [x for x in undo.pop(o['o'], [])]
            else:
                mutate(o, m, c, f)
                undo.setdefault(o['o'], []).extend(o.get('mut', []))
        elif op == 'm.dec':
            if 'ctlen' in o:
                o['ct'] = m.rand(o.pop('ctlen'))
            else:
                mutpart(o, m, o.pop('cls'), ML[o.pop('f')])
            o['ctin.spare'] = m.r.choice([0, 0, 60])
        if op == 'm.enc' and not o.get('bad'):
            undo.pop(o['o'], None)
        ops.append(o)
    return ops


PARTMUT = ('pbit', 'pfirst', 'plast', 'ptwo', 'prand', 'pzero', 'pones')


def mutpart(o, m, c, ml):
    """how a recipient's part of a multi-recipient ciphertext differs"""
    bit = lambda: 1 << m.r.randrange(8)
    if c == 'pbit':
        o['mut'] = [[m.r.randrange(ml), bit()]]
    elif c == 'pfirst':
        o['mut'] = [[0, bit()]]
    elif c == 'plast':
        o['mut'] = [[ml - 1, bit()]]
    elif c == 'ptwo':
        o['mut'] = [[0, bit()], [ml - 1, bit()]]
    elif c == 'prand':
        o['ct'] = m.rand(ml)
    elif c == 'pzero':
        o['ct'] = '00' * ml
    elif c == 'pones':
        o['ct'] = 'ff' * ml
    else:
        assert c == 'same', c


def mutate(o, m, c, f):
    npk, ml = 6 * FB[f], ML[f]
    bit = lambda: 1 << m.r.randrange(8)
    if c == 'c0bit':
        o['mut'] = [[m.r.randrange(npk), bit()]]
    elif c == 'c0first':
        o['mut'] = [[0, bit()]]
    elif c == 'c0last':
        o['mut'] = [[npk - 1, m.r.choice([0x80, 1, bit()])]]
    elif c == 'c1bit':
        o['mut'] = [[npk + m.r.randrange(ml), bit()]]
    elif c == 'c1first':
        o['mut'] = [[npk, bit()]]
    elif c == 'c1last':
        o['mut'] = [[npk + ml - 1, bit()]]
    elif c == 'two':
        o['mut'] = [[m.r.randrange(npk), bit()], [npk + m.r.randrange(ml), bit()]]
    elif c == 'c1rand':
        o['mut'] = [[npk + i, m.r.randrange(256)] for i in range(ml)]
        o['mut'][m.r.randrange(ml)][1] = bit()
    elif c == 'rand':
        o['ct'] = (b''.join(coord(m, f, False) for _ in range(6)) + m.r.randbytes(ml)).hex()
    elif c == 'zero':
        o['ct'] = '00' * (npk + ml)
    elif c == 'ones':
        o['ct'] = 'ff' * (npk + ml)
    elif c == 'addp':
        o['add'] = PR[f].to_bytes(FB[f], 'little').hex()
        o['at'] = m.r.randrange(6) * FB[f]
    else:
        assert c == 'same', c


def scost(s):
    r = 1
    f = 'p434'
    for o in s.get('ops', sum(s.get('threads', []), [])):
        f = o.get('f', f)
        r += {'k.pubgen': 10, 'k.derive': 9, 'e.enc': 20, 'e.dec': 20, 'm.enc': 10 + 10 * len(o.get('pubs', [])), 'm.dec': 30}.get(o['op'], 1) * PCOST[f]
    return r


def sscr(ctx, hists, tag):
    m = Mat(ctx.rng_seed('mat', tag))
    return [{'ops': smat(h, m)} for h in hists]


def exchange(m, f, edge, n=1):
    """both parties of an exchange, n times over the same objects"""
    ops = [{'op': 'k.prv', 'o': 'a', 'f': f, 'v': 'A'}, {'op': 'k.prv', 'o': 'b', 'f': f, 'v': m.r.choice('BS')}]
    bv = ops[1]['v']
    ops += [{'op': 'k.pub', 'o': 'x', 'f': f, 'v': 'A'}, {'op': 'k.pub', 'o': 'y', 'f': f, 'v': bv},
            {'op': 'k.pub', 'o': 'z', 'f': f, 'v': bv}]
    for _ in range(n):
        s = m.rand(ML[f]) if bv == 'S' else ''
        ops += [{'op': 'k.imp', 'o': 'a', 'data': scalar(m, f, 'A', edge).hex()},
                {'op': 'k.imp', 'o': 'b', 'data': s + scalar(m, f, 'B', edge).hex()},
                {'op': 'k.pubgen', 'prv': 'a', 'pub': 'x'}, {'op': 'k.pubgen', 'prv': 'b', 'pub': 'y'},
                {'op': 'k.exp', 'o': 'x'}, {'op': 'k.exp', 'o': 'y'}, {'op': 'k.move', 'o': 'z', 'from': 'y'},
                {'op': 'k.derive', 'prv': 'a', 'pub': 'z', 'outlen': 2 * FB[f]},
                {'op': 'k.derive', 'prv': 'b', 'pub': 'x', 'outlen': 2 * FB[f]}]
    return ops


@plan('C10')
def c10(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'sidh'), ctx.ov])[0]
    ops = ['imp', 'move', 'exp', 'gen', 'pubgen', 'pubgen', 'derive', 'init']
    g = []
    for f, n in zip(FIELDS, (1500, 900, 400) if big else (120, 70, 30)):
        c, d = sgen(ops, 14, 'ab', 'xyz', fields=[f])
        g.append(lambda c=c, d=d, f=f, n=n: ctx.gen_sim(SG, c, n, d, 'histories ' + f))
    r = parallel([lambda: impl_mc(ctx)] + g)
    ctx.add_mc(r[0])
    sc = sscr(ctx, [h for x in r[1:] for h in x], 'C10')
    m = Mat(ctx.rng_seed('ex', 'C10'))
    for f, n in zip(FIELDS, (700, 450, 200) if big else (60, 36, 14)):
        sc += [{'ops': exchange(m, f, i % 3 == 0)} for i in range(n)]
    if ctx.conform('back ends of this machine', drv, sc, 'sidh/SidhTrace.tla', SIDH_CFG, cost=scost):
        # the portable code and the plain assembly
        sub = [s for i, s in enumerate(sc) if i % (2 if big else 8) == 0]
        for hide in (['bmi2,adx'], ['adx'])[: 2 if big else 1]:
            ctx.conform('without ' + hide[0], drv, sub, 'sidh/SidhTrace.tla', SIDH_CFG, cost=scost, env={'VH_HIDE': hide[0]})
        na = driver_for(ctx, 'sidh-386')
        ctx.conform('portable, 32 bit', na, sub[::2], 'sidh/SidhTrace.tla', SIDH_CFG, cost=scost)


@plan('C11')
def c11(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'sidh'), ctx.ov])[0]
    byt = ['imp', 'impbad', 'move', 'exp', 'sizes', 'gen', 'genbad', 'init']
    use = byt + ['pubgen', 'derive']
    g = []
    for f, n in zip(FIELDS, (1200, 900, 500) if big else (90, 50, 25)):
        c, d = sgen(use, 16, 'ab', 'xy', fields=[f])
        g.append(lambda c=c, d=d, f=f, n=n: ctx.gen_sim(SG, c, n, d, 'histories with use ' + f))
    c0, d0 = sgen(byt, 14, 'ab', 'xy', fields=FIELDS, one=False)
    c1, d1 = sgen(byt, 4, 'a', '', fields=FIELDS, bfs=True)
    c2, d2 = sgen(byt, 4, '', 'x', fields=FIELDS, bfs=True)
    r = parallel([lambda: impl_mc(ctx),
                  lambda: ctx.gen_sim(SG, c0, 8000 if big else 900, d0, 'histories'),
                  lambda: ctx.gen_bfs(SG, c1, 'private key transitions'),
                  lambda: ctx.gen_bfs(SG, c2, 'public key transitions')] + g)
    ctx.add_mc(r[0])
    sc = sscr(ctx, [h for x in r[1:] for h in x], 'C11')
    for s in sc:
        # what the objects hold at the end
        s['ops'] += [{'op': 'k.exp', 'o': o} for o in ends(s['ops'])]
    ctx.conform('keys', drv, sc, 'sidh/SidhTrace.tla', SIDH_CFG, cost=scost)


def ends(ops):
    """key objects whose value is known at the end"""
    st, size = {}, {}
    for o in ops:
        if o['op'] in ('k.prv', 'k.pub'):
            st[o['o']] = True
            size[o['o']] = (nbytes(o['f'], o['v']) + (ML[o['f']] if o['v'] == 'S' else 0)) if o['op'] == 'k.prv' else 6 * FB[o['f']]
        elif o['op'] == 'k.init':
            st[o['o']] = False
            size[o['o']] = 6 * FB[o['f']] if size[o["o"]] > 200 else nbytes(o['f'], o['v']) + (ML[o['f']] if o['v'] == 'S' else 0)
        elif o['op'] == 'k.imp' and len(o['data']) == 2 * size[o['o']] or o['op'] == 'k.move':
            st[o['o']] = True
        elif o['op'] == 'k.gen':
            st[o['o']] = len(o['rng']) >= 2 * size[o['o']]
    return [o for o in st if st[o]]


@plan('C12')
def c12(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'sidh'), ctx.ov])[0]
    bad = ['imp', 'gen', 'pubgen', 'derive', 'exp', 'sizes', 'pubgenbad', 'derivebad', 'init']
    c0, d0 = sgen(bad, 14, 'ab', 'xyz', fields=FIELDS, one=False)
    c1, d1 = sgen(['pubgenbad', 'derivebad', 'pubgen', 'derive', 'sizes'], 4, 'a', 'x', fields=FIELDS, one=False, bfs=True)
    c2, d2 = sgen(['gen', 'pubgen', 'bad', 'enc', 'dec', 'alloc', 'ksizes', 'exp'], 18, 'ab', 'xy', 'e', fields=['p434', 'p503'],
                  pv='SB', qv='ABS', mks=('sidh', 'sidh0'))
    c3, d3 = sgen(['gen', 'pubgen', 'bad', 'enc', 'dec', 'alloc', 'ksizes', 'exp'], 16, 'a', 'x', 'e', fields=['p751', 'p434'],
                  pv='S', qv='S', mks=('sidh', 'sidh0'))
    r = parallel([lambda: impl_mc(ctx),
                  lambda: ctx.gen_sim(SG, c0, 1500 if big else 150, d0, 'incompatible keys'),
                  lambda: ctx.gen_bfs(SG, c1, 'all combinations of two keys'),
                  lambda: ctx.gen_sim(SG, c2, 1500 if big else 160, d2, 'KEM misuse'),
                  lambda: ctx.gen_sim(SG, c3, 1200 if big else 120, d3, 'KEM misuse, fitting keys')])
    ctx.add_mc(r[0])
    sc = sscr(ctx, [h for x in r[1:] for h in x], 'C12')
    for s in sc:
        s['ops'] += [{'op': 'k.exp', 'o': o} for o in ends(s['ops'])]
    if ctx.conform('misuse', drv, sc, 'sidh/SidhTrace.tla', SIDH_CFG, cost=scost):
        # the mkem module's objects
        mdrv = driver_for(ctx, 'mkem')
        g = []
        for f, n in zip(FIELDS, (300, 200, 100) if big else (40, 24, 12)):
            c, d = mgen(['gen', 'pubgen', 'menc', 'mbad', 'mbad', 'mdec', 'malloc'], 18, 'ab', 'xyz', 'm', f, pv='SB', qv='SAB')
            g.append(lambda c=c, d=d, f=f, n=n: ctx.gen_sim(MG, c, n, d, 'multi-recipient misuse ' + f))
        c, d = sgen(['gen', 'pubgen', 'bad', 'enc', 'dec', 'alloc', 'ksizes'], 16, 'ab', 'xy', 'e', fields=['p434', 'p503'],
                    pv='SB', qv='ABS', mks=('mkem', 'mkem0'))
        g.append(lambda: ctx.gen_sim(SG, c, 700 if big else 60, d, 'mkem KEM misuse'))
        sc = sscr(ctx, [h for x in parallel(g) for h in x], 'C12m')
        ctx.conform('mkem misuse', mdrv, sc, 'sidh/MkemTrace.tla', MKEM_CFG, cost=scost)


KEMOPS = ['gen', 'imp', 'pubgen', 'pubgen', 'exp', 'enc', 'dec', 'reset', 'ksizes']


def kemscripts(m, f, mk, muts, rounds, fail=False):
    """a key pair, encapsulations and decapsulations on one or two KEM objects"""
    ops = [{'op': 'k.prv', 'o': 'a', 'f': f, 'v': 'S'}, {'op': 'k.pub', 'o': 'x', 'f': f, 'v': 'S'},
           {'op': 'e.new', 'o': 'e', 'f': f, 'mk': mk},
           {'op': 'k.imp', 'o': 'a', 'data': m.rand(ML[f]) + scalar(m, f, 'B', m.r.random() < .2).hex()},
           {'op': 'k.pubgen', 'prv': 'a', 'pub': 'x'}]
    for i in range(rounds):
        if fail and m.r.random() < .5:
            ops.append({'op': 'e.enc', 'o': 'e', 'pub': 'x', 'c': 'none', 'ctx': 0, 'ssx': 0, 'chunk': m.r.choice([0, 3]),
                        'rng': m.rand(m.r.choice([0, 1, ML[f] // 2, ML[f] - 1]))})
        ops.append({'op': 'e.enc', 'o': 'e', 'pub': 'x', 'c': 'c%d' % i, 'ctx': m.r.choice([0, 0, 33]), 'ssx': m.r.choice([0, 0, 5]),
                    'chunk': m.r.choice([0, 1]), 'rng': m.bytes(ML[f])})
        for c in muts:
            o = {'op': 'e.dec', 'o': 'e', 'prv': 'a', 'pub': 'x', 'c': 'c%d' % i, 'ssx': m.r.choice([0, 0, 4]), 'ctin.spare': m.r.choice([0, 50])}
            mutate(o, m, c, f)
            ops.append(o)
        if m.r.random() < .4:
            ops.append({'op': 'e.reset', 'o': 'e'})
    return ops


def kem_gens(ctx, mks, mut, counts, extra=(), depth=18, tag=''):
    g = []
    for f, n in zip(FIELDS, counts):
        c, d = sgen(KEMOPS + list(extra), depth, 'ab', 'xy', 'eg', fields=[f], pv='S', qv='S', mks=mks, mut=mut)
        g.append(lambda c=c, d=d, f=f, n=n: ctx.gen_sim(SG, c, n, d, 'KEM histories %s%s' % (f, tag)))
    return g


def kemseq(m, fs, mk, muts):
    """one KEM object, re-allocated for the fields fs in turn, with a key pair of each"""
    ops = [{'op': 'e.new', 'o': 'e', 'f': fs[0], 'mk': mk}]
    for f in sorted(set(fs)):
        ops += [{'op': 'k.prv', 'o': 'a' + f, 'f': f, 'v': 'S'}, {'op': 'k.pub', 'o': 'x' + f, 'f': f, 'v': 'S'},
                {'op': 'k.imp', 'o': 'a' + f, 'data': m.rand(ML[f]) + scalar(m, f, 'B', False).hex()},
                {'op': 'k.pubgen', 'prv': 'a' + f, 'pub': 'x' + f}]
    last = None
    for i, f in enumerate(fs):
        if i:
            ops.append({'op': 'e.alloc', 'o': 'e', 'f': f})
        ops.append({'op': 'e.sizes', 'o': 'e'})
        ops.append({'op': 'e.enc', 'o': 'e', 'pub': 'x' + f, 'c': 'c%d' % i, 'ctx': m.r.choice([0, 20]), 'ssx': m.r.choice([0, 9]),
                    'chunk': m.r.choice([0, 1, 5]), 'rng': m.rand(ML[f])})
        for j, c in [(i, 'same')] + [(i, c) for c in muts] + [(j, 'same') for j in range(i) if fs[j] == f]:
            o = {'op': 'e.dec', 'o': 'e', 'prv': 'a' + f, 'pub': 'x' + f, 'c': 'c%d' % j, 'ssx': m.r.choice([0, 4])}
            mutate(o, m, c, f)
            ops.append(o)
        if m.r.random() < .5:
            ops.append({'op': 'e.enc', 'o': 'e', 'pub': 'x' + f, 'c': 'none', 'ctx': 0, 'ssx': 0, 'chunk': 0, 'rng': m.rand(ML[f] - 1)})
    return ops


FSEQ = [('p503', 'p434'), ('p434', 'p503', 'p434'), ('p503', 'p503'), ('p751', 'p434'), ('p434', 'p434', 'p503'), ('p434', 'p751', 'p503'),
        ('p503', 'p434', 'p503', 'p434'), ('p751', 'p503')]


def kem_realloc(ctx, mks, mut, n, tag, extra=()):
    """histories whose KEM objects are re-allocated, generated and scripted"""
    c, d = sgen(KEMOPS + ['alloc'] + list(extra), 22, 'ab', 'xy', 'e', fields=['p434', 'p503'], one=False, pv='S', qv='S', mks=mks, mut=mut)
    def go():
        m = Mat(ctx.rng_seed('kemseq', tag))
        sc = sscr(ctx, ctx.gen_sim(SG, c, n, d, 'KEM histories with re-allocation'), tag + 'ra')
        for i in range(max(len(FSEQ), n // 3)):
            fs = FSEQ[i % len(FSEQ)]
            sc.append({'ops': kemseq(m, fs, mks[i % len(mks)], [m.r.choice(list(mut))] if mut else [])})
        return sc
    return go


@plan('C13')
def c13(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'sidh'), ctx.ov])[0]
    r = parallel([lambda: impl_mc(ctx)]
                 + kem_gens(ctx, ('sidh',), (), (700, 400, 180) if big else (60, 36, 18), ('encfail',))
                 + [kem_realloc(ctx, ('sidh',), (), 300 if big else 40, 'C13', ('encfail',))])
    ctx.add_mc(r[0])
    sc = sscr(ctx, [h for x in r[1:-1] for h in x], 'C13') + r[-1]
    m = Mat(ctx.rng_seed('kem', 'C13'))
    for f, n in zip(FIELDS, (500, 300, 120) if big else (44, 26, 10)):
        sc += [{'ops': kemscripts(m, f, 'sidh', ['same', 'same'][:1 + i % 2], 1 + i % 3)} for i in range(n)]
    ctx.conform('kem', drv, sc, 'sidh/SidhTrace.tla', SIDH_CFG, ['over'], cost=scost)


@plan('C14')
def c14(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'sidh'), ctx.ov])[0]
    r = parallel([lambda: impl_mc(ctx)]
                 + kem_gens(ctx, ('sidh',), ALLMUT, (500, 300, 120) if big else (40, 24, 12), ('encfail', 'mut', 'mut'), 20)
                 + [kem_realloc(ctx, ('sidh',), ALLMUT, 200 if big else 24, 'C14', ('mut',))])
    ctx.add_mc(r[0])
    sc = sscr(ctx, [h for x in r[1:-1] for h in x], 'C14') + r[-1]
    m = Mat(ctx.rng_seed('kem', 'C14'))
    for f, n in zip(FIELDS, (400, 220, 100) if big else (30, 18, 8)):
        for i in range(n):
            ms = [ALLMUT[(i + k * 5) % len(ALLMUT)] for k in range(4)] + ['c1bit', 'c0bit', 'same']
            sc.append({'ops': kemscripts(m, f, 'sidh', ms, 1, True)})
    ctx.conform('rejection', drv, sc, 'sidh/SidhTrace.tla', SIDH_CFG, cost=scost)


# ---- the mkem module
MG = 'sidh/MkemGen.tla'
MKEM_CFG = SIDH_CFG.replace('SPECIFICATION Spec', 'SPECIFICATION MkSpec')


def mgen(ops, depth, prvs, pubs, mkos, f, pv='S', qv='S', recips=(1, 2, 3), mut=PARTMUT):
    fs = [f] if isinstance(f, str) else f
    c, d = sgen(ops, depth, prvs, pubs, '', fields=fs, one=len(fs) == 1, pv=pv, qv=qv, mut=mut)
    d += len(mkos)
    c = re.sub(r'Depth = \d+', 'Depth = %d' % d, c).replace('SPECIFICATION Spec', 'SPECIFICATION MSpec')
    return c.replace('CONSTANTS\n', 'CONSTANTS\n  Mkos = %s\n  Recips = %s\n' % (tla(set(mkos)), tla(set(recips))), 1), d


def mscripts(m, f, n, tamper):
    """n recipients; encapsulations; everyone decapsulates, in any order, with own and others' keys"""
    names = [('abcde'[i], 'vwxyz'[i]) for i in range(n)]
    ops = [{'op': 'm.new', 'o': 'mk', 'f': f, 'n': n}]
    inner = m.r.random() < .5
    if inner:
        ops.append({'op': 'm.inner', 'o': 'in', 'm': 'mk', 'f': f})
    single = []

    def use():
        """the single-recipient object inside the multi-recipient one"""
        p, q = m.r.choice(names)
        if not single or m.r.random() < .5:
            single.append((p, q))
            return {'op': 'e.enc', 'o': 'in', 'pub': q, 'c': 's%d' % (len(single) - 1), 'ctx': 0, 'ssx': 0, 'chunk': 0, 'rng': m.rand(ML[f])}
        i = m.r.randrange(len(single))
        o = {'op': 'e.dec', 'o': 'in', 'prv': single[i][0], 'pub': single[i][1], 'c': 's%d' % i, 'ssx': 0}
        mutate(o, m, m.r.choice(['same', 'same', 'c0bit', 'c1bit']), f)
        return o
    for p, q in names:
        if m.r.random() < .5:
            ops += [{'op': 'm.key', 'm': 'mk', 'o': p, 'f': f, 'kind': 'prv'}, {'op': 'm.key', 'm': 'mk', 'o': q, 'f': f, 'kind': 'pub'}]
        else:
            ops += [{'op': 'k.prv', 'o': p, 'f': f, 'v': 'S'}, {'op': 'k.pub', 'o': q, 'f': f, 'v': 'S'}]
        ops += [{'op': 'k.imp', 'o': p, 'data': m.rand(ML[f]) + scalar(m, f, 'B', False).hex()}, {'op': 'k.pubgen', 'prv': p, 'pub': q}]
    for rnd in range(2):
        if m.r.random() < .3:
            ops.append({'op': 'm.enc', 'o': 'mk', 'pubs': [names[0][1]], 'cs': ['none'], 'ssx': 0, 'chunk': 0, 'rng': m.rand(ML[f] - 1)})
        order = list(range(n))
        m.r.shuffle(order)
        ops.append({'op': 'm.enc', 'o': 'mk', 'pubs': [names[i][1] for i in order], 'cs': ['r%d.%d' % (rnd, i) for i in order],
                    'ssx': m.r.choice([0, 6]), 'chunk': m.r.choice([0, 1]), 'rng': m.bytes(ML[f])})
        decs = [(i, i, 'r%d.%d' % (rnd, i), 'same') for i in range(n)]
        decs += [(m.r.randrange(n), m.r.randrange(n), 'r%d.%d' % (m.r.randrange(rnd + 1), m.r.randrange(n)), 'same')]
        decs += [(i, i, 'r%d.%d' % (rnd, i), m.r.choice(PARTMUT)) for i in range(n) if tamper]
        m.r.shuffle(decs)
        for p, q, c, k in decs:
            if m.r.random() < .2:
                ops.append({'op': 'm.reset', 'o': 'mk'})
            if inner and m.r.random() < .4:
                ops.append(use())
            o = {'op': 'm.dec', 'o': 'mk', 'prv': names[p][0], 'pub': names[q][1], 'c': c, 'ssx': 0}
            mutpart(o, m, k, ML[f])
            ops.append(o)
        if tamper and n:
            t = {'op': 'm.tamper', 'o': 'mk'}
            mutate(t, m, m.r.choice(['c0bit', 'c0first', 'c0last']), f)
            d = {'op': 'm.dec', 'o': 'mk', 'prv': names[0][0], 'pub': names[0][1], 'c': 'r%d.0' % rnd, 'ssx': 0}
            ops += [t, dict(d), dict(t), dict(d)]
    return ops


def mseq(m, fs, n):
    """one multi-recipient object, allocated for the fields fs in turn and for changing numbers of recipients"""
    ops = []
    names = 'ab'
    for f in sorted(set(fs)):
        for k in names:
            ops += [{'op': 'k.prv', 'o': k + f, 'f': f, 'v': 'S'}, {'op': 'k.pub', 'o': 'x' + k + f, 'f': f, 'v': 'S'},
                    {'op': 'k.imp', 'o': k + f, 'data': m.rand(ML[f]) + scalar(m, f, 'B', False).hex()},
                    {'op': 'k.pubgen', 'prv': k + f, 'pub': 'x' + k + f}]
    ops.append({'op': 'm.new', 'o': 'mk', 'f': fs[0], 'n': n})
    for i, f in enumerate(fs):
        if i:
            n = 1 + (n + m.r.randrange(2)) % 3
            ops.append({'op': 'm.alloc', 'o': 'mk', 'f': f, 'n': n})
        ops.append({'op': 'm.sizes', 'o': 'mk'})
        to = [m.r.choice(names) for _ in range(n)]
        ops.append({'op': 'm.enc', 'o': 'mk', 'pubs': ['x' + k + f for k in to], 'cs': ['r%d.%d' % (i, j) for j in range(n)],
                    'ssx': m.r.choice([0, 6]), 'chunk': m.r.choice([0, 1]), 'rng': m.rand(ML[f])})
        for j, k in enumerate(to):
            for c in ['same'] + ([m.r.choice(PARTMUT)] if m.r.random() < .5 else []):
                o = {'op': 'm.dec', 'o': 'mk', 'prv': k + f, 'pub': 'x' + k + f, 'c': 'r%d.%d' % (i, j), 'ssx': 0}
                mutpart(o, m, c, ML[f])
                ops.append(o)
    return ops


def mmany(m, f, n):
    """n recipients, with two key pairs between them; some of them decapsulate, twice"""
    ops = [{'op': 'm.new', 'o': 'mk', 'f': f, 'n': n + m.r.randrange(2)}]
    for p, q in ('av', 'bw'):
        ops += [{'op': 'k.prv', 'o': p, 'f': f, 'v': 'S'}, {'op': 'k.pub', 'o': q, 'f': f, 'v': 'S'},
                {'op': 'k.imp', 'o': p, 'data': m.rand(ML[f]) + scalar(m, f, 'B', False).hex()}, {'op': 'k.pubgen', 'prv': p, 'pub': q}]
    who = [m.r.choice('ab') for _ in range(n)]
    ops.append({'op': 'm.enc', 'o': 'mk', 'pubs': [{'a': 'v', 'b': 'w'}[p] for p in who], 'cs': ['r%d' % i for i in range(n)],
                'ssx': 0, 'chunk': 0, 'rng': m.rand(ML[f])})
    for i in sorted({0, n // 2, min(n - 1, 15), min(n - 1, 16), min(n - 1, 255), min(n - 1, 256), n - 1}):
        for k in ('same', m.r.choice(PARTMUT)):
            o = {'op': 'm.dec', 'o': 'mk', 'prv': who[i], 'pub': {'a': 'v', 'b': 'w'}[who[i]], 'c': 'r%d' % i, 'ssx': 0}
            mutpart(o, m, k, ML[f])
            ops.append(o)
    return ops


MOPS = ['gen', 'imp', 'pubgen', 'pubgen', 'menc', 'mdec', 'mdec2', 'mreset', 'msizes', 'mencfail', 'mmut', 'mtamper', 'malloc']


def mkem_mc(ctx):
    return ctx.mc('sidh/MkemImpl.tla', os.path.join(SPEC, 'sidh', 'MkemImpl3.cfg' if ctx.thorough else 'MkemImpl.cfg'),
                  'multi-recipient objects, up to %d ciphertexts' % (3 if ctx.thorough else 2))


@plan('C21')
def c21(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'mkem'), ctx.ov])[0]
    g = []
    for f, n in zip(FIELDS, (600, 350, 150) if big else (44, 26, 10)):
        c, d = mgen(MOPS, 22, 'ab', 'xy', 'mn' if n % 4 else 'm', f)
        g.append(lambda c=c, d=d, f=f, n=n: ctx.gen_sim(MG, c, n, d, 'multi-recipient histories ' + f))
    c2, d2 = mgen(MOPS + ['malloc'], 26, 'ab', 'xy', 'm', ['p434', 'p503'])
    g.append(lambda: ctx.gen_sim(MG, c2, 300 if big else 40, d2, 'multi-recipient histories with re-allocation'))
    r = parallel([lambda: mkem_mc(ctx)] + g)
    ctx.add_mc(r[0])
    sc = sscr(ctx, [h for x in r[1:] for h in x], 'C21')
    m = Mat(ctx.rng_seed('mkem', 'C21'))
    for f, n in zip(FIELDS, (300, 160, 60) if big else (20, 12, 5)):
        sc += [{'ops': mscripts(m, f, 1 + i % 5, i % 2 == 0)} for i in range(n)]
    for i in range(60 if big else 10):
        sc.append({'ops': mseq(m, FSEQ[i % len(FSEQ)], 1 + (i * 5) % 3)})
    for f, n in [('p434', 17), ('p503', 20), ('p434', 260)] + ([('p751', 40), ('p503', 260), ('p434', 600)] if big else []):
        sc.append({'ops': mmany(m, f, n)})
    ctx.conform('mkem', drv, sc, 'sidh/MkemTrace.tla', MKEM_CFG, cost=scost)


@plan('C22')
def c22(ctx):
    big = ctx.thorough
    drv = parallel([lambda: driver_for(ctx, 'mkem'), ctx.ov])[0]
    bad = ['gen', 'pubgen', 'bad', 'enc', 'dec', 'alloc', 'ksizes', 'exp']
    c2, d2 = sgen(bad, 16, 'a', 'x', 'e', fields=['p751', 'p434'], pv='S', qv='S', mks=('mkem', 'mkem0'))
    r = parallel([lambda: impl_mc(ctx)]
                 + kem_gens(ctx, ('mkem',), ALLMUT, (400, 240, 100) if big else (30, 18, 8), ('encfail', 'mut'), 20)
                 + kem_gens(ctx, ('mkem', 'sidh'), ALLMUT, (400, 240, 100) if big else (30, 18, 8), ('encfail', 'mut'), 20, ' both packages')
                 + [lambda: ctx.gen_sim(SG, c2, 800 if big else 60, d2, 'KEM misuse'),
                    kem_realloc(ctx, ('mkem', 'mkem', 'sidh'), ALLMUT, 200 if big else 24, 'C22', ('mut',))])
    ctx.add_mc(r[0])
    sc = sscr(ctx, [h for x in r[1:-1] for h in x], 'C22') + r[-1]
    m = Mat(ctx.rng_seed('kem', 'C22'))
    for f, n in zip(FIELDS, (300, 180, 80) if big else (20, 12, 6)):
        for i in range(n):
            ms = [ALLMUT[(i + k * 5) % len(ALLMUT)] for k in range(3)] + ['same', 'c1bit', 'c0bit', 'same']
            ops = kemscripts(m, f, 'mkem', ms, 1 + i % 2, True)
            if i % 2:
                # encapsulated by one package, decapsulated by the other
                ops.insert(3, {'op': 'e.new', 'o': 'g', 'f': f, 'mk': 'sidh'})
                for o in ops:
                    if o['op'] == 'e.dec' and m.r.random() < .5 or o['op'] == 'e.enc' and m.r.random() < .3:
                        o['o'] = 'g'
            sc.append({'ops': ops})
    ctx.conform('kem', drv, sc, 'sidh/SidhTrace.tla', SIDH_CFG, cost=scost)
