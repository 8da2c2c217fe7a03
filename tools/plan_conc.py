"""C23: threads with objects of their own that share keys."""
from plan_sidh import *
from plan_csidh import prvkey

DRIVERS.update({'conc': ('conc', '', False), 'conc-race': ('conc', '', True)})


def _overlay():
    d = os.path.join(ROOT, 'harness', 'overlay', 'mkem')
    return {os.path.relpath(os.path.join(dp, f), d)[:-4]: open(os.path.join(dp, f)).read() for dp, _, fs in os.walk(d) for f in fs}


OVERLAYS['conc'] = _overlay
KG = 'conc/ConcGen.tla'
EVERYTHING = ('hash', 'sm3', 'drbg', 'sidh', 'csidh')
ALGS = SHA3 = ['SHA3-224', 'SHA3-256', 'SHA3-384', 'SHA3-512', 'SHAKE128', 'SHAKE256', 'cSHAKE128', 'cSHAKE256']


def kgen(n, calls, subjects, fields=FIELDS, alike=False, turns=True):
    return mkcfg(dict(Threads=set(range(1, n + 1)), Subjects=set(subjects), Fields=set(fields), Algs=set(ALGS), Alike=alike, Turns=turns,
                      Depth=calls + n),
                 None, ['SPECIFICATION Spec', 'INVARIANT EmitAtDepth', 'CHECK_DEADLOCK FALSE']), calls + n


def setup(m, d):
    """the keys the threads about d share"""
    if d in FIELDS:
        ops = []
        for p, q, v in (('sA', 'qA', 'A'), ('sB', 'qB', 'B'), ('sS', 'qS', 'S'), ('sT', 'qT', 'S')):
            s = m.rand(ML[d]) if v == 'S' else ''
            ops += [{'op': 'k.prv', 'o': p, 'f': d, 'v': v}, {'op': 'k.pub', 'o': q, 'f': d, 'v': v},
                    {'op': 'k.imp', 'o': p, 'data': s + scalar(m, d, v, False).hex()}, {'op': 'k.pubgen', 'prv': p, 'pub': q}]
        return ops
    if d == 'csidh':
        ops = []
        for p, q in (('a', 'x'), ('b', 'y')):
            ops += [{'op': 's.prv', 'o': p}, {'op': 's.pub', 'o': q},
                    {'op': 's.imp', 'o': p, 'data': prvkey(m, m.r.choice(['first', 'first', 'few'])).hex()},
                    {'op': 's.pubgen', 'prv': p, 'pub': q, 'seed': m.r.randrange(1, 2**31)}]
        return ops
    return []


class Prog:
    """the operations of one thread"""

    def __init__(self, m, d, t, spy):
        self.m, self.d, self.t, self.spy = m, d, 't%d.' % t, spy
        self.ops, self.made, self.n, self.alg, self.x = [], set(), 0, None, False

    def own(self, n, *mk):
        if n not in self.made:
            self.made.add(n)
            self.ops += [dict(o, **{'o': self.t + n} if 'o' not in o else {}) for o in mk]
        return self.t + n

    def add(self, **o):
        self.ops.append(o)

    def call(self, c):
        m, d, k, x, t = self.m, self.d, c['k'], c['x'], self.t
        seed = lambda: m.r.randrange(1, 2**31)
        self.n += 1
        if k == 'new':
            self.alg, self.x = x, x.startswith('SHAKE') or x.startswith('cSHAKE')
            self.add(op='h.new', o=t + 'h', alg=x, N=m.bytes(3) if x[0] == 'c' else '', S=m.bytes(9) if x[0] == 'c' else '')
        elif k == 'write':
            self.add(op='h.write' if not self.hasread() else 'h.reset', o=t + 'h', d=m.bytes(x))
        elif k == 'out':
            if self.x:
                self.add(op='h.read', o=t + 'h', n=x)
            else:
                self.add(op='h.sum', o=t + 'h', **{'in': m.bytes(x % 40), 'in.spare': m.r.choice([0, 0, 100])})
        elif k == 'reset':
            self.add(op='h.reset', o=t + 'h')
        elif k == 'clone':
            to = t + 'h%d' % self.n
            self.add(op='h.clone', o=t + 'h', to=to)
            self.add(op='h.read', o=to if x else t + 'h', n=40)
            if not x:
                self.add(op='h.read', o=to, n=17)
        elif k == 'dnew':
            self.add(op='d.new', o=t + 'd', spy=self.spy)
            self.add(op='d.init', o=t + 'd', ent=m.rand(m.r.choice([32, 48])), pers=m.bytes(m.r.choice([0, 20])))
        elif k == 'dgen':
            self.add(op='d.gen', o=t + 'd', n=x, ad=m.bytes(m.r.choice([0, 0, 30])))
        elif k == 'dreseed':
            self.add(op='d.reseed', o=t + 'd', ent=m.rand(48), ad=m.bytes(x))
        elif k == 'pubgen':
            q = self.own('p' + x, {'op': 'k.pub', 'f': d, 'v': x})
            p = self.t + 'g' + x if 'g' + x in self.made and m.r.random() < .5 else 's' + x
            self.add(op='k.pubgen', prv=p, pub=q, alt=m.r.random() < .3)
        elif k == 'gen':
            p = self.own('g' + x, {'op': 'k.prv', 'f': d, 'v': x})
            self.add(op='k.gen', o=p, rng=m.rand(200), chunk=m.r.choice([0, 0, 5]), alt=False)
        elif k == 'derive':
            self.add(op='k.derive', prv='s' + x, pub='qB' if x == 'A' else 'qA', outlen=2 * FB[d])
        elif k == 'exp':
            self.add(op='k.exp', o=m.r.choice(['qA', 'qB', 'qS', 'sA', 'sS']))
        elif k == 'enc':
            e = self.own('e' + x, {'op': 'e.new', 'f': d, 'mk': x})
            self.ct = (t + 'c', m.r.choice('ST'))
            self.add(op='e.enc', o=e, pub='q' + self.ct[1], c=self.ct[0], rng=m.rand(ML[d]), chunk=m.r.choice([0, 0, 7]), ctx=0, ssx=0)
        elif k == 'dec':
            e = self.own('e' + x, {'op': 'e.new', 'f': d, 'mk': x})
            o = dict(op='e.dec', o=e, prv='s' + self.ct[1], pub='q' + self.ct[1], c=self.ct[0], ssx=0)
            mutate(o, m, m.r.choice(['same', 'same', 'c1bit']), d)
            self.ops.append(o)
        elif k == 'menc':
            e = self.own('mk', {'op': 'm.new', 'f': d, 'n': 3})
            self.mct = [m.r.choice('ST') for _ in range(x)]
            self.add(op='m.enc', o=e, pubs=['q' + v for v in self.mct], cs=[t + 'c%d' % i for i in range(x)], ssx=0, chunk=0, rng=m.rand(ML[d]))
        elif k == 'mdec':
            i = m.r.randrange(len(self.mct))
            self.add(op='m.dec', o=t + 'mk', prv='s' + self.mct[i], pub='q' + self.mct[i], c=t + 'c%d' % i, ssx=0)
        elif k == 'spubgen':
            p = self.t + 'g' if 'g' in self.made and m.r.random() < .3 else m.r.choice('ab')
            self.add(op='s.pubgen', prv=p, pub=self.own('p', {'op': 's.pub'}), seed=seed(), chunk=m.r.choice([0, 0, 13]))
        elif k == 'sgen':
            self.add(op='s.gen', o=self.own('g', {'op': 's.prv'}), rng=m.rand(64 * 80), chunk=0)
        elif k == 'sval':
            self.add(op='s.val', pub=m.r.choice('xy'), seed=seed(), chunk=m.r.choice([0, 0, 13]))
        elif k == 'sderive':
            self.add(op='s.derive', prv='ab'[x], pub='yx'[x], seed=seed())
        elif k == 'sexp':
            o = m.r.choice('abxy')
            self.add(op='s.exp', o=o, n=64 if o in 'xy' else 37)
        elif k in ('penc', 'pdec', 'pmenc'):
            if 'seeded' not in self.made:
                self.made.add('seeded')
                self.add(op='p.seed', data=m.rand(48))
            if k == 'penc':
                q = m.r.choice('xy')
                self.pct = {'x': 'a', 'y': 'b'}[q]
                self.add(op='p.enc', o=self.own('pk', {'op': 'p.new', 'n': 0}), pub=q, c=t + 'pc', pt=m.rand(16))
            elif k == 'pdec':
                self.add(op='p.dec', o=self.own('pk', {'op': 'p.new', 'n': 0}), prv=self.pct, c=t + 'pc')
            else:
                self.add(op='p.menc', o=self.own('pm', {'op': 'p.new', 'n': 2}), pubs=['x', 'y'][: m.r.choice([1, 2])], pt=m.rand(16))
        else:
            assert k == 'go', k

    def hasread(self):
        """an extensible object that was read from takes no more input"""
        r = False
        for o in self.ops:
            if o.get('o') == self.t + 'h':
                r = o['op'] in ('h.read', 'h.clone') and self.x or r and o['op'] not in ('h.new', 'h.reset')
        return r


def kmat(hist, m, spy, reps, sched):
    doms = [h['about'] for h in hist if 'about' in h]
    hist = hist[len(doms):]
    ps = [Prog(m, d, i, spy) for i, d in enumerate(doms)]
    for h in hist:
        ps[h['t'] - 1].call(h['c'])
    for p in ps:      # what the thread's hash holds at the end
        if p.alg:
            p.call({'k': 'out', 'x': 40})
    s = {'threads': [p.ops for p in ps], 'doms': doms, 'setup': {d: setup(m, d) for d in sorted(set(doms))}, 'reps': reps}
    if sched:
        s['sched'] = [h['t'] - 1 for h in hist]
    return s


def kscr(ctx, hists, tag, spy=True, reps=1, sched=False):
    m = Mat(ctx.rng_seed('mat', tag))
    return [kmat(h, m, spy, reps, sched) for h in hists]


# milliseconds
COST = {'k.pubgen': 3, 'k.derive': 3, 'e.enc': 6, 'e.dec': 6, 'm.enc': 10, 'm.dec': 6, 's.pubgen': 30, 's.val': 20, 's.derive': 40,
        'p.enc': 60, 'p.dec': 60, 'p.menc': 80}


def kcost(s):
    f = lambda ops, w: sum(COST.get(o['op'], .1) * w for o in ops) / 1000
    w = 30 if s.get('alone') else 10 * s['reps']
    return f([o for t in s['threads'] for o in t], w) + f([o for t in s['setup'].values() for o in t], w) + (.02 * len(s['threads']) if s.get('alone') else 0)


def conc_mc(ctx):
    """every interleaving of calls in local or own memory is as good as running them alone, and
    the model notices that other memory is not"""
    base = open(os.path.join(SPEC, 'conc', 'ConcImpl2.cfg' if ctx.thorough else 'ConcImpl.cfg')).read()
    rs = []
    for w in ('local', 'object', 'once'):
        rs.append(ctx.mc('conc/ConcImpl.tla', base.replace('"local"', '"%s"' % w), 'working memory: ' + w))
    small = open(os.path.join(SPEC, 'conc', 'ConcImpl.cfg')).read()
    for w in ('key', 'package', 'lazy'):
        rc, out = ctx.tlc.run(os.path.join(SPEC, 'conc/ConcImpl.tla'), small.replace('"local"', '"%s"' % w), workers=4)
        if 'is violated' not in out:
            raise Broken('the model does not notice working memory in: %s\n%s' % (w, tail(out)))
    return rs


@plan('C23')
def c23(ctx):
    big = ctx.thorough
    k = 30 if big else 2
    g = [('all alike', kgen(6, 24, EVERYTHING, alike=True), 16 * k, {}),
         ('mixed', kgen(8, 32, EVERYTHING), 5 * k, {}),
         ('hashes and generators', kgen(8, 64, ('hash', 'sm3', 'drbg')), 12 * k, {}),
         ('isogenies', kgen(6, 18, ('sidh',), ['p434', 'p503']), 6 * k, {}),
         ('csidh', kgen(4, 12, ('csidh',)), 4 * k, {}),
         ('schedules, isogenies', kgen(3, 18, ('sidh',), ['p434'], alike=True, turns=False), 10 * k, {'sched': True}),
         ('schedules, csidh', kgen(3, 14, ('csidh',), turns=False), 5 * k, {'sched': True}),
         ('schedules, generators', kgen(3, 24, ('drbg', 'hash'), turns=False), 20 * k, {'sched': True}),
         ('schedules, mixed', kgen(4, 24, EVERYTHING, ['p434', 'p751'], turns=False), 5 * k, {'sched': True})]
    r = parallel([lambda: conc_mc(ctx), lambda: driver_for(ctx, 'conc'), lambda: driver_for(ctx, 'conc-race'), ctx.ov]
                 + [lambda n=n, c=c, num=num: ctx.gen_sim(KG, c[0], num, c[1], n) for n, c, num, _ in g])
    for x in r[0]:
        ctx.add_mc(x)
    free, sched = [], []
    for (n, c, num, opt), h in zip(g, r[4:]):
        s = kscr(ctx, h, 'C23' + n, reps=1 if opt else (20 if big else 6), **opt)
        for i, x in enumerate(s):
            x['key'] = '%s %d' % (n, i)
        (sched if opt else free).extend(s)
    alone = [{k: v for k, v in dict(s, alone=True).items() if k not in ('sched', 'reps')} for s in free + sched]
    race = [dict(s, reps=2) for s in free]
    # every fifth program on a processor without special instructions
    runs = []
    for env, part in ((None, lambda ss: [s for i, s in enumerate(ss) if i % 5]), ({'VH_HIDE': 'aes,bmi2,adx'}, lambda ss: ss[::5])):
        w = ', plain processor' if env else ''
        keys = {s['key'] for s in part(free) + part(sched)}
        of = lambda ss: [s for s in ss if s['key'] in keys]
        runs += [('alone' + w, r[1], of(alone), env, kcost),
                 ('free running, race detector' + w, r[2], of(race), env, lambda s: 8 * kcost(s)),
                 ('free running' + w, r[1], of(free), env, kcost), ('scheduled at reads' + w, r[1], of(sched), env, kcost)]
    ctx.conform_same('concurrent', runs, chance=True)
