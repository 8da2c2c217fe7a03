"""C24: what calls leave alone, and layouts of the caller's memory."""
from plan_conc import *
from plan_csidh import *
import plan_hash as ph, plan_drbg as pd, plan_pke as pp


def frame_scripts(ctx, k, tag='C24'):
    """histories of every kind of object: {kind: scripts}"""
    fg = lambda f, n: [(lambda c=c, d=d: ctx.gen_sim(SG, c, n, d, 'keys ' + f)) for c, d in
                       [sgen(['imp', 'impbad', 'move', 'exp', 'sizes', 'gen', 'genbad', 'pubgen', 'derive', 'pubgenbad', 'derivebad'], 16, 'ab', 'xy', fields=[f])]]
    kg = lambda f, n, mks: kem_gens(ctx, mks, ALLMUT, [n if x == f else 1 for x in FIELDS], ('encfail', 'mut', 'bad', 'alloc'), 20, ' ' + f)[FIELDS.index(f)]
    mg = lambda f, n: [(lambda c=c, d=d: ctx.gen_sim(MG, c, n, d, 'multi-recipient ' + f)) for c, d in [mgen(MOPS + ['mbad'], 20, 'ab', 'xy', 'm', f)]]
    cg, cd = cgen(['imp', 'impbad', 'move', 'exp', 'expbad', 'gen', 'genbad', 'pubgen', 'derive', 'val'], 12, 'ab', 'xy', PUBCLS, ['first', 'few', 'zero', 'any'])
    pg, pd_ = pp.pgen(['seed', 'alloc', 'enc', 'dec', 'menc', 'take', 'mut'], 9, multis='m', room=3)
    jobs = [lambda: ctx.gen_sim(ph.HG, ph.hgen(ph.SHA3 + ph.XOF, ['new', 'write', 'sum', 'read', 'reset', 'clone', 'oneshot', 'size'], 16), 200 * k, 17, 'hash'),
            lambda: ctx.gen_sim(ph.HG, ph.hgen(['SM3'], ['new', 'write', 'sum', 'reset', 'size'], 14), 100 * k, 14, 'sm3'),
            lambda: ctx.gen_sim(pd.DG, pd.dgen(['init', 'short', 'reseed', 'gen', 'gen'], 12, 'ab'), 250 * k, 12, 'drbg'),
            lambda: ctx.gen_sim(pd.AG, pd.agen(14), 150 * k, 14, 'aes'),
            lambda: ctx.gen_sim(CG, cg, 24 * k, cd, 'csidh'), lambda: ctx.gen_sim(pp.PG, pg, 10 * k, pd_, 'pke')]
    own, with_mkem = [], []      # which of the histories need nothing but the sidh package
    for f, n in zip(FIELDS, (60, 40, 20)):
        own += fg(f, n * k) + [kg(f, max(1, n * k // 2), ('sidh',))]
        with_mkem += [kg(f, max(1, n * k // 2), ('sidh', 'mkem'))] + mg(f, n * k)
    r = parallel(jobs + own + with_mkem)
    cat = lambda x: [h for y in x for h in y]
    m = Mat(ctx.rng_seed('frame', tag))
    am = Mat(ctx.rng_seed('mat', tag + 'a'))
    return {'hash': ph.scr(ctx, r[0] + r[1], tag + 'h'), 'drbg': pd.dscr(ctx, r[2], tag + 'd'), 'csidh': cscr(ctx, r[4], tag + 'c'), 'pke': pp.pscr(ctx, r[5], tag + 'p'),
            'sidh': sscr(ctx, cat(r[6:6 + len(own)]), tag + 'k'), 'mkem': sscr(ctx, cat(r[6 + len(own):]), tag + 'm'),
            'many': [{'ops': mscripts(m, f, 3, True)} for f in FIELDS for _ in range(2 * k)],
            'aes': [{'ops': pd.amat(h, am)} for h in r[3]]}


def fcost_ms(s, w=3):
    return sum(COST.get(o['op'], .1) * w for o in s['ops']) / 1000


def frame_mc(ctx):
    """copying refines the specification of what calls may change; the model notices the other habits"""
    d = os.path.join(SPEC, 'frame')
    base = open(os.path.join(d, 'FrameImpl2.cfg' if ctx.thorough else 'FrameImpl.cfg')).read()
    small = open(os.path.join(d, 'FrameImpl.cfg')).read()
    def bad(h):
        rc, out = ctx.tlc.run(os.path.join(d, 'FrameImpl.tla'), small.replace('"copy"', '"%s"' % h), workers=2)
        if 'is violated' not in out:
            raise Broken('the model does not notice the habit %s\n%s' % (h, tail(out)))
    r = parallel([lambda: ctx.mc('frame/FrameImpl.tla', base, 'memory of the caller')]
                 + [lambda h=h: bad(h) for h in ('retain', 'pad', 'expose', 'block', 'borrow', 'inplace')])
    return r[:1]


def laid(s, how):
    return dict(s, ops=[dict(o) for o in s['ops']], env={'layout': how} if how else {})


@plan('C24')
def c24(ctx):
    k = 20 if ctx.thorough else 2
    r = parallel([lambda: frame_mc(ctx), lambda: driver_for(ctx, 'conc'), lambda: driver_for(ctx, 'aes'), ctx.ov, lambda: frame_scripts(ctx, k)])
    for x in r[0]:
        ctx.add_mc(x)
    drv = {'conc': r[1], 'aes': r[2]}
    for name, scripts in (('conc', [s for n, x in r[4].items() if n != 'aes' for s in x]), ('aes', r[4]['aes'])):
        cost = fcost_ms
        for i, s in enumerate(scripts):
            s['key'] = '%s %d' % (name, i)
        runs = [('%s, %s' % (name, what), drv[name], [laid(s, how) for s in scripts], None, cost)
                for what, how in (('plain layout', 'plain'), ('wide layout', 'wide'), ('mixed layout', ''))]
        if name == 'conc':
            sub = [dict(s, key='plain processor ' + s['key']) for s in scripts[::4]]
            hide = {'VH_HIDE': 'aes,bmi2,adx'}
            runs += [('plain processor, ' + how, drv[name], [laid(s, how) for s in sub], hide, cost) for how in ('plain', 'wide')]
        if not ctx.conform_same(name, runs, ['frame']):
            return
