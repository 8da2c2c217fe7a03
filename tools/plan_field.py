"""C15, C19: the field routines of SIDH and CSIDH.

A script is a short program of the register machine of spec/field/FieldObj.tla (generated by
TLC from FieldGen); every register holds one number per lane, and the numbers are chosen here,
around the values where carries and conditional corrections change."""
from plans import *
import overlay_field
OVERLAYS['field'] = overlay_field.files
DRIVERS.update({'field': ('field', '', False), 'field-gen': ('field', 'noasm', False, {'GOARCH': '386'})})

FG = 'field/FieldGen.tla'
FCFG = mkcfg(lines=TRACE_LINES + ['VIEW At'])
P511 = None


def primes():
    import csidhmath as cm
    return {'p434': (2**216 * 3**137 - 1, 7), 'p503': (2**250 * 3**159 - 1, 8), 'p751': (2**372 * 3**239 - 1, 12), 'p511': (cm.P, 8)}


class Vals:
    """Operand values of one field."""

    def __init__(self, field, seed):
        self.p, self.w = primes()[field]
        self.p2 = 2 * self.p
        self.R = 1 << (64 * self.w)
        self.pr = self.p * self.R
        self.r = random.Random(seed)
        self.rinv = pow(self.R, -1, self.p)
        R, p, c = self.R, self.p, self.r.choice
        self.special = [0, p, 2 * p, p // 2, (p + 1) // 2, R % p, R * R % p, p - R % p, R - 1, R - p, R - 2 * p, (R - 1) % p, R // 2]
        self.word = [0, 1, 2, 2**64 - 1, 2**64 - 1, 2**64 - 2, 2**63, 2**63 - 1, 2**63 + 1, 2**32, 2**32 - 1, 2**64 - 2**32]

    def lim(self, cap):
        return {'p': self.p, '2p': self.p2, 'all': self.R}[cap]

    def small(self):
        return self.r.choice([0, 1, 1, 2, 3, self.r.randrange(1, 300), self.r.getrandbits(32), self.r.getrandbits(64)])

    def limbs(self, n, top=None):
        """words from a small set, in runs; top: what the number has to be below"""
        r = self.r
        ws, i = [], 0
        while i < n:
            k = r.choice([1, 1, 1, 2, 3, n])
            v = r.choice(self.word + [r.getrandbits(64)] * 3)
            ws += [v] * k
            i += k
        x = sum(v << (64 * i) for i, v in enumerate(ws[:n]))
        if top is not None and x >= top:
            # keep the low words; the high part just below the bound, or anywhere
            j = r.randrange(0, n)
            hi = (top - 1) >> (64 * j)
            h = hi - r.choice([0, 0, 1, 2, r.randrange(hi + 1)]) if hi else 0
            x = (max(h, 0) << (64 * j)) | (x & ((1 << (64 * j)) - 1))
            if x >= top:
                x = top - 1 - self.small() % top
        return x

    def near(self, lim):
        r = self.r
        for _ in range(20):
            b = r.choice(self.special + [1 << r.randrange(64 * self.w), (1 << (64 * r.randrange(self.w))) * r.choice([1, 2, 3, 2**63]),
                                         self.p - (1 << r.randrange(64 * self.w)), self.p2 - (1 << (64 * r.randrange(self.w)))])
            x = b + r.choice([-1, 1]) * self.small()
            if 0 <= x < lim:
                return x
        return r.randrange(lim)

    def one(self, cap):
        r, lim = self.r, self.lim(cap)
        c = r.random()
        if c < .40:
            return self.limbs(self.w, lim)
        if c < .62:
            return self.near(lim)
        if c < .74:
            x = (self.small() * r.choice([1, self.R, self.rinv, self.R * self.R])) % self.p
            if r.random() < .5:
                x = (self.p - x) % self.p
            if cap != 'p' and r.random() < .5 and x + self.p < lim:
                x += self.p
            return x
        return r.randrange(lim)

    def pair(self, rel, cap):
        r, lim, p = self.r, self.lim(cap), self.p
        x, y = self.one(cap), self.one(cap)
        if rel == 'eq':
            y = x + r.choice([0, 0, p, -p])
        elif rel == 'sum':
            t = r.choice([p, p, 2 * p, 2 * p, 3 * p, 4 * p, self.R, self.R, 1 << (64 * r.randrange(1, self.w + 1))])
            y = t - x + r.choice([0, 0, 1, -1, self.small(), -self.small()])
        elif rel == 'diff':
            y = x + r.choice([1, -1]) * (self.small() if r.random() < .5 else r.choice([1, 1, 2, 2**63, self.small()]) << (64 * r.randrange(self.w)))
        elif rel == 'prod':
            t = self.one('2p') if r.random() < .7 else r.choice([1, 2, p - 1, p - 2, 0])
            if x % p:
                y = t * self.R * pow(x, -1, p) % p
                if cap != 'p' and r.random() < .5 and y + p < lim:
                    y += p
        if not 0 <= y < lim:
            y = self.one(cap)
        return (x, y) if r.random() < .5 else (y, x)

    def x(self, cls):
        r, lim = self.r, self.pr
        if cls == 'quot':           # z R - m p for a chosen quotient m
            for _ in range(20):
                m = self.limbs(self.w) if r.random() < .7 else self.near(self.R)
                z = r.choice([self.one('2p'), self.one('2p'), self.limbs(self.w, self.p2), (m * self.p >> (64 * self.w)) + self.small() + 1])
                v = z * self.R - m * self.p
                if 0 <= v < lim:
                    return v
            cls = 'near'
        if cls == 'mid':            # a column of the reduction whose second word is all ones
            p1 = [((self.p + 1) >> (64 * k)) & (2**64 - 1) for k in range(self.w)]
            M = 2**64 - 1
            for _ in range(20):
                i = r.randrange(1, 2 * self.w - 1)
                js = [j for j in range(max(0, i - self.w + 1), min(i + 1, self.w)) if p1[i - j]]
                if not js:
                    continue
                m = [r.getrandbits(64) if r.random() < .7 else r.choice(self.word) for _ in range(self.w)]
                j = r.choice(js)
                s = sum(m[a] * p1[i - a] for a in js if a != j)
                # what the columns below carry into this one
                low = sum(m[a] * p1[b] << (64 * (a + b)) for a in range(self.w) for b in range(self.w) if a + b < i)
                s += (low >> (64 * i)) + r.choice([0, 1])
                t = r.choice([1, 1, 2, 2, 3])
                q = -(-(t * 2**128 - 2**64 + r.choice([0, 0, r.getrandbits(63)]) - s) // p1[i - j])
                if not 0 <= q <= M:
                    continue
                m[j] = q
                m = sum(x << (64 * k) for k, x in enumerate(m))
                v = r.choice([self.limbs(self.w, self.p2), r.randrange(self.p2), (m * self.p >> (64 * self.w)) + self.small() + 1]) * self.R - m * self.p
                if 0 <= v < lim:
                    return v
            cls = 'limbs'
        if cls == 'prod':
            a, b = self.pair('prod', '2p')
            return a * b
        if cls == 'near':
            for _ in range(20):
                v = self.p * r.choice([0, 1, 2, self.p, self.R - 1, self.R // 2, self.small(), self.limbs(self.w)]) \
                    + r.choice([-1, 1]) * self.small() * (1 << (64 * r.choice([0, 0, r.randrange(2 * self.w)])))
                if 0 <= v < lim:
                    return v
        if cls == 'rand':
            return r.randrange(lim)
        return self.limbs(2 * self.w, lim)

    def xpair(self, rel):
        r, lim = self.r, self.pr
        x = self.x(r.choice(['limbs', 'limbs', 'near', 'prod', 'rand']))
        y = self.x(r.choice(['limbs', 'limbs', 'near', 'prod', 'rand']))
        if rel == 'eq':
            y = x + r.choice([0, 0, self.p, -self.p, self.R, self.p << 64])
        elif rel == 'sum':
            y = r.choice([1 << (64 * r.randrange(1, 2 * self.w + 1)), lim]) - x + r.choice([0, 0, 1, -1, self.small(), -self.small()])
        elif rel == 'diff':
            y = x + r.choice([1, -1]) * (r.choice([1, 1, 2, self.small()]) << (64 * r.randrange(2 * self.w)))
        if not 0 <= y < lim:
            y = self.x('limbs')
        return (x, y) if r.random() < .5 else (y, x)


def fhex(vs, n):
    return b''.join(v.to_bytes(n, 'little') for v in vs).hex()


def fmat(h, field, lanes, flags, seed):
    v = Vals(field, seed)
    n = 8 * v.w
    ops = [dict({'op': 'f.new', 'field': field, 'lanes': lanes}, **flags)]
    for o in h:
        k = o['op']
        if k == 'f.load':
            ops.append({'op': k, 'd': o['d'], 'v': fhex([v.one(o['cap']) for _ in range(lanes)], n)})
        elif k == 'f.pair':
            ps = [v.pair(o['rel'], o['cap']) for _ in range(lanes)]
            ops += [{'op': 'f.load', 'd': o['a'], 'v': fhex([a for a, _ in ps], n)},
                    {'op': 'f.load', 'd': o['b'], 'v': fhex([b for _, b in ps], n)}]
        elif k == 'x.load':
            ops.append({'op': k, 'd': o['d'], 'v': fhex([v.x(o['cls']) for _ in range(lanes)], 2 * n)})
        elif k == 'x.pair':
            ps = [v.xpair(o['rel']) for _ in range(lanes)]
            ops += [{'op': 'x.load', 'd': o['a'], 'v': fhex([a for a, _ in ps], 2 * n)},
                    {'op': 'x.load', 'd': o['b'], 'v': fhex([b for _, b in ps], 2 * n)}]
        elif k in ('f.cpow64', 'f.wmul', 'f.wmulfull'):
            ops.append(dict(o, ms=fhex([v.r.choice(v.word + [v.r.getrandbits(64)] * 4 + [3, 5, 587]) for _ in range(lanes)], 8)))
        else:
            ops.append(dict(o))
    return {'ops': ops}


SOPS = {'add', 'sub', 'mulP', 'mod', 'p34', 'cswap', 'mul', 'adl', 'sul', 'rdc', 'qadd', 'qsub', 'qmul', 'qsqr', 'qinv', 'qtom', 'qfromm', 'qswap'}
COPS = {'cadd', 'csub', 'cmul', 'cpow', 'cpow64', 'wsub', 'wmul', 'wmulfull', 'cswap', 'less', 'equal', 'iszero', 'nonqr'}
HEAVY = {'f.rdc': .07, 'f.mul': .25, 'f.sul': .3, 'f.mod': .2, 'f.p34': 25, 'f.qinv': 40, 'f.cpow': 30, 'f.cpow64': 8, 'f.nonqr': 30, 'f.qmul': 2, 'f.qsqr': 2}


def one_cfg(kind, ops):
    return mkcfg(dict(Mode='one', Kind=kind, Ops=ops, Depth=1), lines=['SPECIFICATION SpecOne', 'CHECK_DEADLOCK FALSE', 'ACTION_CONSTRAINT EmitTransition'])


def prog_cfg(kind, ops, depth):
    return mkcfg(dict(Mode='prog', Kind=kind, Ops=ops, Depth=depth), lines=['SPECIFICATION SpecProg', 'CHECK_DEADLOCK FALSE', 'INVARIANT EmitAtDepth'])


def fcost(s):
    n = s['ops'][0]['lanes']
    return n * sum(HEAVY.get(o['op'], 1) for o in s['ops'])


def impl_cfg(consts, extra=''):
    return 'CONSTANTS\n' + ''.join('  %s = %s\n' % (k, tla(v)) for k, v in consts.items()) + \
        'SPECIFICATION Spec\n' + extra + 'PROPERTY Refines\nCHECK_DEADLOCK FALSE\n'


def sidh_impl(ctx):
    sets = [(4, 3, 11, 1, 'fp'), (2, 6, 11, 2, 'fp'), (2, 5, 7, 3, 'x2'), (4, 3, 3, 1, 'fp2')]
    if ctx.thorough:
        sets += [(8, 3, 23, 1, 'fp'), (4, 4, 47, 2, 'fp'), (4, 3, 11, 1, 'x2'), (4, 4, 7, 1, 'fp2')]
    return [ctx.mc('field/FieldImpl.tla', impl_cfg(dict(zip(('B', 'N', 'P', 'Z', 'Mode'), s)), 'INVARIANT InRange\n'),
                   'word-level model %s' % (s,), workers=8, ov=True) for s in sets]


def csidh_impl(ctx):
    sets = [(4, 3, 31, 2, 'mod'), (4, 3, 29, 1, 'mod'), (4, 3, 29, 1, 'word')]
    if ctx.thorough:
        sets += [(16, 2, 127, 4, 'mod')]
    return [ctx.mc('field/FpImpl.tla', impl_cfg(dict(zip(('B', 'N', 'P', 'Win', 'Mode'), s))),
                   'word-level model %s' % (s,), workers=8, ov=True) for s in sets]


def fscr(ctx, field, ones, progs, lanes, plan, flags, salt=None):
    """salt: instead of the flags, so that several variants get the same operands"""
    r = []
    for i, h in enumerate(ones):
        k = HEAVY.get(h[-1]['op'], 1)
        r.append(fmat(h, field, max(12, int(lanes / k)), flags, ctx.rng_seed('f1', field, i, salt or sorted(flags.items()))))
    for i, h in enumerate(progs):
        r.append(fmat(h, field, plan, flags, ctx.rng_seed('f2', field, i, salt or sorted(flags.items()))))
    return r


FLAGS = [('adx and bmi2', dict(adx=True, bmi2=True)), ('bmi2', dict(adx=False, bmi2=True)), ('plain', dict(adx=False, bmi2=False))]


@plan('C15')
def c15(ctx):
    big = ctx.thorough
    r = parallel([lambda: sidh_impl(ctx), lambda: driver_for(ctx, 'field'), lambda: driver_for(ctx, 'field-gen'), ctx.ov,
                  lambda: ctx.gen_bfs(FG, one_cfg('sidh', SOPS), 'every instruction, aliasing and relation'),
                  lambda: ctx.gen_sim(FG, prog_cfg('sidh', SOPS, 24), 150 if big else 12, 24, 'programs')])
    for m in r[0]:
        ctx.add_mc(m)
    lanes, plan = (1200, 60) if big else (60, 12)
    for f in ('p434', 'p503', 'p751'):
        sc = []
        for n, fl in FLAGS:
            sc += fscr(ctx, f, r[4], r[5], lanes, plan, fl)
        if not ctx.conform('%s assembly' % f, r[1], sc, 'field/FieldTrace.tla', FCFG, {'frame'}, cost=fcost, timeout=1600):
            return
        if not ctx.conform('%s generic' % f, r[2], fscr(ctx, f, r[4], r[5], lanes, plan, {}), 'field/FieldTrace.tla', FCFG, {'frame'}, cost=fcost, timeout=1600):
            return


@plan('C19')
def c19(ctx):
    big = ctx.thorough
    r = parallel([lambda: csidh_impl(ctx), lambda: driver_for(ctx, 'field'), lambda: driver_for(ctx, 'field-gen'), ctx.ov,
                  lambda: ctx.gen_bfs(FG, one_cfg('csidh', COPS), 'every instruction, aliasing and relation'),
                  lambda: ctx.gen_sim(FG, prog_cfg('csidh', COPS, 24), 200 if big else 20, 24, 'programs')])
    for m in r[0]:
        ctx.add_mc(m)
    lanes, plan = (4000, 100) if big else (250, 16)
    for n, fl in FLAGS:
        if not ctx.conform('assembly, ' + n, r[1], fscr(ctx, 'p511', r[4], r[5], lanes, plan, fl), 'field/FieldTrace.tla', FCFG, {'frame'}, cost=fcost, timeout=1600):
            return
    ctx.conform('generic', r[2], fscr(ctx, 'p511', r[4], r[5], lanes, plan, {}), 'field/FieldTrace.tla', FCFG, {'frame'}, cost=fcost, timeout=1600)
