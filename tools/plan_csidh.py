"""C16-C20: CSIDH and the CSIDH-based encryption of mkem."""
from plans import *
import csidhmath as cm
DRIVERS.update({'csidh': ('csidh', '', False), 'csidh-noasm': ('csidh', 'noasm', False)})

CG = 'csidh/CsidhGen.tla'
CSUB = dict(ActFn='TrAct', ValidFn='TrValid', GenFn='TrGen', LenOf='TrLen', Cut='TrCut', Blank='Zeros', Unknown='TrUnknown')
CSIDH_CFG = mkcfg(subst=CSUB, lines=TRACE_LINES)
POOL = [bytes.fromhex(x) for x in json.load(open(os.path.join(ROOT, 'tools', 'csidh_pool.json')))]
TORSION = json.load(open(os.path.join(ROOT, 'tools', 'csidh_torsion.json')))   # ordinary curves: [key, x, order of x]
TOR = {bytes.fromhex(a): bytes.fromhex(x) for a, x, _ in TORSION}
PUBCLS = ('pool', 'pool', 'twist', 'rand', 'zero', 'two', 'mtwo', 'p', 'pplus', 'over', 'ones', 'one', 'near', 'pm1', 'small', 'tor', 'tor')
PRVCLS = ('rand', 'rand', 'few', 'pos', 'neg', 'zero', 'any')


def cgen(ops, depth, prvs='a', pubs='x', pubcls=PUBCLS, prvcls=PRVCLS, bfs=False):
    lines = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']
    lines += ['VIEW Shape', 'ACTION_CONSTRAINT EmitTransition'] if bfs else ['INVARIANT EmitAtDepth']
    n = len(prvs) + len(pubs)
    return mkcfg(dict(Prvs=set(prvs), Pubs=set(pubs), Ops=set(ops), PubClasses=set(pubcls), PrvClasses=set(prvcls), Depth=depth + n),
                 dict(ActFn='GAct', ValidFn='GValid', GenFn='GGenFn', LenOf='GLen', Cut='GCut', Blank='GBlank', Unknown='GUnknown'),
                 lines), depth + n


def pubkey(m, c):
    P = cm.P
    rd = lambda: m.r.randrange(P)
    x = m.r.choice(POOL)
    v = lambda n: n.to_bytes(64, 'little')
    return {'pool': lambda: x, 'tor': lambda: m.r.choice(sorted(TOR)), 'twist': lambda: v((P - int.from_bytes(x, 'little')) % P),
            'rand': lambda: v(rd()), 'zero': lambda: bytes(64), 'two': lambda: cm.mont(2), 'mtwo': lambda: cm.mont(P - 2),
            'p': lambda: v(P), 'pplus': lambda: v(int.from_bytes(x, 'little') + P) if int.from_bytes(x, 'little') + P < 2**512 else v(P),
            'over': lambda: v(m.r.randrange(P, 2**512)), 'ones': lambda: b'\xff' * 64, 'one': lambda: cm.mont(m.r.choice([1, P - 1, 6, P - 6, 3])),
            'near': lambda: v((int.from_bytes(x, 'little') ^ (1 << m.r.randrange(510))) % 2**512),
            'pm1': lambda: v(P - m.r.randrange(1, 4)), 'small': lambda: v(m.r.randrange(1, 300))}[c]()


def pack(e):
    return bytes(((e[2 * i] & 15) << 4) | (e[2 * i + 1] & 15) for i in range(37))


def prvkey(m, c):
    e = [0] * 74
    R = m.r.randrange
    if c == 'rand':
        e = [R(-5, 6) for _ in e]
    elif c == 'small':
        e = [R(-1, 2) for _ in e]
    elif c == 'few':
        for _ in range(R(1, 6)):
            e[R(74)] = m.r.choice([-5, -1, 1, 5, 2, -8, 7])
    elif c == 'first':
        e[R(3)], e[73] = m.r.choice([-1, 1]), m.r.choice([-1, 0, 1])
    elif c == 'pos':
        e = [R(0, 4) for _ in e]
    elif c == 'neg':
        e = [-R(0, 4) for _ in e]
    elif c == 'max':
        e = [m.r.choice([5, 5, 5, -5])] * 74
    elif c == 'ext':
        for i in m.r.sample(range(74), 8):
            e[i] = m.r.choice([-8, 7, -7, 6, -6])
    elif c == 'any':
        return m.r.randbytes(37)
    return pack(e)


def block(m, c, a):
    """one 64-byte block a point is made of"""
    P = cm.P
    v = lambda n: n.to_bytes(64, 'little')
    if c == 'low' and isinstance(a, bytes):
        return a
    if c == 'low' and a is not None:
        ks = m.r.choice([[], [3], [587], m.r.sample(cm.ELLS, 5), m.r.sample(cm.ELLS, 20), m.r.sample(cm.ELLS, 60)])
        return cm.mont(cm.point_of(a, m.r, ks))
    return {'zero': lambda: bytes(64), 'one': lambda: cm.mont(1), 'neg': lambda: cm.mont(P - 1), 'p': lambda: v(P), 'pm1': lambda: v(P - 1),
            'ones': lambda: b'\xff' * 64, 'small': lambda: v(m.r.randrange(1, 9)), 'top': lambda: v(m.r.randrange(P) | 1 << 511),
            'low': lambda: cm.mont(1), 'rand': lambda: m.r.randbytes(64)}[c]()


def known(key, c):
    """what is known about the curve: its coefficient, or a point of small order"""
    return TOR[key] if c == 'tor' else cm.demont(key) if c in ('pool', 'twist', 'zero') else None


def points(o, m, a=None):
    """the random stream of a call: some special points first"""
    o['seed'] = m.r.randrange(1, 2**31)
    if m.r.random() < .75:
        o['pre'] = b''.join(block(m, m.r.choice(['zero', 'one', 'neg', 'p', 'pm1', 'ones', 'small', 'top', 'low', 'low', 'low', 'rand']), a)
                            for _ in range(m.r.choice([1, 2, 2, 3, 5, 12]))).hex()


def genstream(m, c):
    g = lambda: m.r.randrange(-5, 6) & 255
    b = lambda: m.r.choice([6, 250, 7, 127, 128, 16, 240, m.r.randrange(6, 251)])
    e = lambda: m.r.choice([5, 251, 0, 255, 6, 250])
    if c == 'rand':
        return m.r.randbytes(64 * 80)
    if c == 'dense':
        return bytes(g() for _ in range(64 * 2 + m.r.choice([0, 30])))
    if c == 'sparse':
        return bytes(g() if i % 37 == 0 else b() for i in range(64 * 50))
    if c == 'edges':
        return bytes(e() for _ in range(64 * 12))
    if c == 'exact':                      # the last exponent is the last byte of the last block
        n = m.r.choice([2, 3, 5])
        s = [g() for _ in range(74)] + [b() for _ in range(64 * n - 74)]
        last = s.pop(0)
        m.r.shuffle(s)
        return bytes(s + [last])
    if c == 'long':                       # very many bytes to leave out, at once or in between
        n = m.r.choice([70, 200, 1100])
        k = m.r.randrange(74)
        s = [g() for _ in range(k)] + [b() for _ in range(64 * n)] + [g() for _ in range(74 - k)]
        return bytes(s + [b() for _ in range(-len(s) % 64)])
    if c == 'none':
        return b''
    if c == 'nogood':
        return bytes(b() for _ in range(640))
    if c == 'part':                       # enough only when the last, partial block counts
        s = [g() for _ in range(70)] + [b() for _ in range(58)]
        m.r.shuffle(s)
        return bytes(s + [g() for _ in range(m.r.randrange(4, 60))])
    k = {'short0': 0, 'short1': 1, 'short73': 73}[c]
    s = [g() for _ in range(k)] + [b() for _ in range(64 * m.r.choice([2, 3]) + m.r.choice([0, 1, 63]) - k)]
    m.r.shuffle(s)
    return bytes(s)


def cmat(hist, m):
    ops, cur = [], {}
    for h in hist:
        o = dict(h)
        op = h['op']
        if op == 's.pub':
            cur[o['o']] = 0
        elif op == 's.imp':
            n, c, kind = o.pop('len'), o.pop('cls'), o.pop('kind')
            if c == 'bad':
                d = m.r.randbytes(n)
            elif kind == 'pub':
                d = pubkey(m, c)
                cur[o['o']] = known(d, c)
            else:
                d = prvkey(m, c)
                d += m.r.randbytes(n - len(d))
            o['data'] = d.hex()
            o['data.spare'] = m.r.choice([0, 0, 50])
        elif op == 's.move':
            cur[o['o']] = cur.get(o['from'])
        elif op == 's.exp':
            o['out.spare'] = m.r.choice([0, 0, 40])
        elif op == 's.gen':
            o['rng'] = genstream(m, o.pop('cls')).hex()
        elif op == 's.pubgen':
            points(o, m, 0)
            cur[o['pub']] = None
        elif op in ('s.val', 's.derive'):
            points(o, m, cur.get(o['pub']))
        ops.append(o)
    return ops


def ccost(s):
    return 1 + sum({'s.pubgen': 12, 's.derive': 20, 's.val': 5, 'p.enc': 30, 'p.dec': 20, 'p.menc': 50}.get(o['op'], .05)
                   for o in s.get('ops', sum(s.get('threads', []), [])))


def cscr(ctx, hists, tag):
    m = Mat(ctx.rng_seed('mat', tag))
    return [{'ops': cmat(h, m)} for h in hists]


def csidh_exchange(m, ca, cb, again):
    """both parties; the derivations repeated with other random points"""
    ops = [{'op': 's.prv', 'o': 'a'}, {'op': 's.prv', 'o': 'b'}, {'op': 's.pub', 'o': 'x'}, {'op': 's.pub', 'o': 'y'},
           {'op': 's.imp', 'o': 'a', 'data': prvkey(m, ca).hex()}, {'op': 's.imp', 'o': 'b', 'data': prvkey(m, cb).hex()},
           {'op': 's.pubgen', 'prv': 'a', 'pub': 'x'}, {'op': 's.pubgen', 'prv': 'b', 'pub': 'y'},
           {'op': 's.exp', 'o': 'x', 'n': 64}, {'op': 's.exp', 'o': 'y', 'n': 64}]
    for _ in range(again):
        ops += [{'op': 's.derive', 'prv': 'a', 'pub': 'y'}, {'op': 's.derive', 'prv': 'b', 'pub': 'x'}]
    for o in ops:
        if o['op'] in ('s.pubgen', 's.derive'):
            points(o, m, 0 if o['op'] == 's.pubgen' else None)
            o['chunk'] = m.r.choice([0, 0, 1, 33])
    return ops


def act_mc(ctx):
    cfg = 'ActImpl2.cfg' if ctx.thorough else 'ActImpl.cfg'
    return ctx.mc('csidh/ActImpl.tla', os.path.join(SPEC, 'csidh', cfg), 'group action over p = 419', workers=8)


def val_mc(ctx):
    cfg = 'ValImpl2.cfg' if ctx.thorough else 'ValImpl.cfg'
    return ctx.mc('csidh/ValImpl.tla', os.path.join(SPEC, 'csidh', cfg), 'validation over p = 419', workers=8)


@plan('C16')
def c16(ctx):
    big = ctx.thorough
    c, d = cgen(['imp', 'move', 'exp', 'gen', 'pubgen', 'pubgen', 'derive'], 8, 'ab', 'xy', ['pool', 'twist', 'zero'],
                ['rand', 'few', 'first', 'pos', 'neg', 'zero', 'ext', 'small', 'max'])
    r = parallel([lambda: act_mc(ctx), lambda: driver_for(ctx, 'csidh'), ctx.ov,
                  lambda: ctx.gen_sim(CG, c, 900 if big else 60, d, 'histories')])
    ctx.add_mc(r[0])
    sc = cscr(ctx, r[3], 'C16')
    m = Mat(ctx.rng_seed('ex', 'C16'))
    cl = ['rand', 'small', 'first', 'few', 'pos', 'neg', 'zero', 'ext', 'max']
    for i in range(300 if big else 16):
        sc.append({'ops': csidh_exchange(m, cl[i % len(cl)], m.r.choice(cl[:6]), 1 + (i % 4 == 0))})
    if ctx.conform('back end of this machine', r[1], sc, 'csidh/CsidhTrace.tla', CSIDH_CFG, cost=ccost):
        sub = [s for i, s in enumerate(sc) if i % (3 if big else 9) == 0]
        ctx.conform('without bmi2 and adx', r[1], sub, 'csidh/CsidhTrace.tla', CSIDH_CFG, cost=ccost, env={'VH_HIDE': 'bmi2,adx'})
        na = driver_for(ctx, 'csidh-noasm')
        ctx.conform('portable', na, sub, 'csidh/CsidhTrace.tla', CSIDH_CFG, cost=ccost)


@plan('C17')
def c17(ctx):
    big = ctx.thorough
    c, d = cgen(['imp', 'imp', 'move', 'exp', 'val', 'val'], 14, '', 'xy')
    c2, d2 = cgen(['imp', 'derive', 'val'], 7, 'a', 'xy', prvcls=['first', 'zero', 'few'])
    r = parallel([lambda: val_mc(ctx), lambda: driver_for(ctx, 'csidh'), ctx.ov,
                  lambda: ctx.gen_sim(CG, c, 900 if big else 70, d, 'validation histories'),
                  lambda: ctx.gen_sim(CG, c2, 600 if big else 50, d2, 'derivation histories')])
    ctx.add_mc(r[0])
    sc = cscr(ctx, r[3] + r[4], 'C17')
    m = Mat(ctx.rng_seed('cls', 'C17'))
    # every class of public key, on its own
    for k in sorted(set(PUBCLS)):
        for _ in range(30 if big else 3):
            key = pubkey(m, k)
            ops = [{'op': 's.prv', 'o': 'a'}, {'op': 's.imp', 'o': 'a', 'data': prvkey(m, 'first').hex()},
                   {'op': 's.pub', 'o': 'x'}, {'op': 's.imp', 'o': 'x', 'data': key.hex()}, {'op': 's.val', 'pub': 'x'},
                   {'op': 's.val', 'pub': 'x'}, {'op': 's.derive', 'prv': 'a', 'pub': 'x'}]
            for o in ops:
                if o['op'] in ('s.val', 's.derive'):
                    points(o, m, known(key, k))
            sc.append({'ops': ops})
    if ctx.conform('validation', r[1], sc, 'csidh/CsidhTrace.tla', CSIDH_CFG, cost=ccost):
        na = driver_for(ctx, 'csidh-noasm')
        ctx.conform('portable', na, sc[::4 if big else 8], 'csidh/CsidhTrace.tla', CSIDH_CFG, cost=ccost)


@plan('C18')
def c18(ctx):
    big = ctx.thorough
    allk = ['imp', 'impbad', 'move', 'exp', 'expbad', 'gen', 'genbad']
    c, d = cgen(allk, 20, 'ab', 'xy')
    c1, d1 = cgen(allk, 4, 'a', '', bfs=True)
    c2, d2 = cgen(allk, 4, '', 'x', bfs=True)
    c3, d3 = cgen(allk + ['pubgen', 'derive'], 10, 'ab', 'xy', ['pool', 'zero'], ['first', 'zero', 'few'])
    r = parallel([lambda: driver_for(ctx, 'csidh'), ctx.ov,
                  lambda: ctx.gen_sim(CG, c, 6000 if big else 700, d, 'histories'),
                  lambda: ctx.gen_bfs(CG, c1, 'private key transitions'), lambda: ctx.gen_bfs(CG, c2, 'public key transitions'),
                  lambda: ctx.gen_sim(CG, c3, 400 if big else 40, d3, 'histories with use')])
    sc = cscr(ctx, [h for x in r[2:] for h in x], 'C18')
    m = Mat(ctx.rng_seed('long', 'C18'))
    for i in range(100 if big else 10):
        sc.append({'ops': [{'op': 's.prv', 'o': 'a'}] + [{'op': 's.gen', 'o': 'a', 'rng': genstream(m, 'long').hex(), 'chunk': m.r.choice([0, 1, 7, 64])}
                                                         for _ in range(1 + i % 2)]})
    for s in sc:
        s['ops'] += [{'op': 's.exp', 'o': o, 'n': n} for o, n in cends(s['ops'])]
    ctx.conform('keys', r[0], sc, 'csidh/CsidhTrace.tla', CSIDH_CFG, cost=ccost)


def cends(ops):
    """key objects whose value is known at the end"""
    st = {}
    for o in ops:
        if o['op'] in ('s.prv', 's.pub'):
            st[o['o']] = [True, 37 if o['op'] == 's.prv' else 64]
        elif o['op'] == 's.imp' and (len(o['data']) >= 74 if st[o['o']][1] == 37 else len(o['data']) == 128):
            st[o['o']][0] = True
        elif o['op'] == 's.move':
            st[o['o']][0] = st[o['from']][0]
        elif o['op'] == 's.pubgen':
            st[o['pub']][0] = True
        elif o['op'] == 's.gen':
            st[o['o']][0] = goodbytes(o['rng'])
    return [(o, st[o][1]) for o in st if st[o][0]]


def goodbytes(h):
    b = bytes.fromhex(h)
    b = b[:len(b) // 64 * 64]
    return sum(1 for x in b if x <= 5 or x >= 251) >= 74
