"""C20: the CSIDH-based encryption of mkem."""
from plan_csidh import *
DRIVERS.update({'pke': ('pke', '', False)})
PG = 'pke/PkeGen.tla'
PKE_CFG = mkcfg(subst=CSUB, lines=['SPECIFICATION PSpec', 'POSTCONDITION Accepted', 'CHECK_DEADLOCK FALSE'])
MUTS = ['vbit', 'vtail', 'vall', 'upool', 'ubit', 'urand', 'uzero']


def pgen(ops, depth, prvs='ab', pubs='xy', singles='p', multis='m', room=3, cts='cd', muts=MUTS, seeds=(1, 2), bfs=False):
    lines = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE']
    lines += ['VIEW Shape', 'ACTION_CONSTRAINT EmitTransition'] if bfs else ['INVARIANT EmitAtDepth']
    n = len(prvs) + len(pubs) + len(singles) + len(multis)
    return mkcfg(dict(Prvs=set(prvs), Pubs=set(pubs), Singles=set(singles), Multis=set(multis), Room=room, Ops=set(ops), CtNames=set(cts),
                      Muts=set(muts), Texts={'s', 't'}, Seeds=set(seeds), Depth=depth + n),
                 dict(ActFn='GAct', ValidFn='GValid', GenFn='GGenFn', LenOf='GLen', Cut='GCut', Blank='GBlank', Unknown='GUnknown',
                      MaskFn='GMask', OverFn='GOver'), lines), depth + n


BELONGS = {'x': 'a', 'y': 'b', 'z': 'c'}


def pmat(hist, m, invalid=False):
    """keys are filled in once they are all made: small exponents, one key now and then full"""
    texts = {t: m.r.choice([m.r.randbytes(16), m.r.randbytes(16), bytes(16), b'\xff' * 16]) for t in 'st'}
    seeds = {s: m.r.randbytes(48) for s in range(1, 9)}
    ops, made, filled = [], [], False
    for h in hist:
        o = dict(h)
        op = o['op']
        if op in ('s.prv', 's.pub', 'p.new') and not filled:
            if op != 'p.new':
                made.append(o['o'])
            ops.append(o)
            continue
        if not filled:
            filled = True
            ops += fill(m, made, invalid)
            ops.append({'op': 'p.seed', 'data': seeds[m.r.choice([1, 2])].hex()})
        if op == 's.imp':
            # often a key another object has or had
            olds = [x['data'] for x in ops if x['op'] == 's.imp' and len(x['data']) == 74]
            o['data'] = m.r.choice(olds) if m.r.random() < .6 else prvkey(m, m.r.choice(['first', 'few', 'zero'])).hex()
        elif op == 's.pubgen':
            o['seed'] = m.r.randrange(1, 2**31)
        elif op == 'p.seed':
            o['data'] = seeds[o.pop('s')].hex()
        elif op in ('p.enc', 'p.menc'):
            o['pt'] = texts[o.pop('text')].hex()
        elif op == 'p.mut':
            c = o.pop('cls')
            bit = lambda lo, hi: (lambda i: (bytes(i) + bytes([1 << m.r.randrange(8)])).hex())(m.r.randrange(lo, hi))
            o.update({'vbit': lambda: {'xv': bit(0, 16)}, 'vtail': lambda: {'xv': bit(16, 64)}, 'vall': lambda: {'xv': m.rand(64)},
                      'upool': lambda: {'u': m.r.choice(POOL).hex()}, 'ubit': lambda: {'xu': bit(0, 64)},
                      'urand': lambda: {'u': pubkey(m, 'rand').hex()}, 'uzero': lambda: {'u': bytes(64).hex()}}[c]())
        ops.append(o)
    return ops


def fill(m, made, invalid):
    ops = []
    for o in made:
        if o not in BELONGS:
            ops.append({'op': 's.imp', 'o': o, 'data': prvkey(m, m.r.choice(['first', 'first', 'first', 'few', 'zero', 'small'])).hex()})
    for o in made:
        if o in BELONGS and BELONGS[o] in made:
            ops.append({'op': 's.pubgen', 'prv': BELONGS[o], 'pub': o, 'seed': m.r.randrange(1, 2**31)})
    if invalid:
        q = m.r.choice([o for o in made if o in BELONGS])
        ops.append({'op': 's.imp', 'o': q, 'data': pubkey(m, m.r.choice(['rand', 'p', 'two', 'over', 'tor', 'ones'])).hex()})
    return ops


def pscr(ctx, hists, tag, every=0):
    m = Mat(ctx.rng_seed('mat', tag))
    return [{'ops': pmat(h, m, every and i % every == 0)} for i, h in enumerate(hists)]


def swaps(m):
    """the same objects and ciphertexts, the keys exchanged in between"""
    ops = [{'op': 's.prv', 'o': 'a'}, {'op': 's.prv', 'o': 'b'}, {'op': 's.pub', 'o': 'x'}, {'op': 's.pub', 'o': 'y'},
           {'op': 'p.new', 'o': 'p', 'n': 0}, {'op': 'p.new', 'o': 'm', 'n': 2}] + fill(m, ['a', 'b', 'x', 'y'], False)
    ka, kb = [o['data'] for o in ops if o['op'] == 's.imp']
    pt = lambda: m.rand(16)
    ops += [{'op': 'p.seed', 'data': m.rand(48)}, {'op': 'p.menc', 'o': 'm', 'pubs': ['x', 'y'], 'pt': pt()},
            {'op': 'p.take', 'o': 'm', 'i': 1, 'c': 'c'}, {'op': 'p.take', 'o': 'm', 'i': 2, 'c': 'd'}]
    for _ in range(2):
        ops += [{'op': 'p.dec', 'o': m.r.choice('pppm'), 'prv': 'a', 'c': c} for c in m.r.choice(['c', 'd', 'cd'])]
        ops.append({'op': 's.imp', 'o': 'a', 'data': kb})
        ops += [{'op': 'p.dec', 'o': m.r.choice('pppm'), 'prv': 'a', 'c': c} for c in m.r.choice(['c', 'dc', 'cd'])]
        ops.append({'op': 's.imp', 'o': 'a', 'data': ka})
    ops += [{'op': 'p.enc', 'o': 'p', 'pub': 'x', 'c': 'c', 'pt': pt()}, {'op': 's.move', 'o': 'x', 'from': 'y'},
            {'op': 'p.enc', 'o': 'p', 'pub': 'x', 'c': 'd', 'pt': pt()}, {'op': 'p.menc', 'o': 'm', 'pubs': ['x'], 'pt': pt()},
            {'op': 'p.dec', 'o': 'p', 'prv': 'b', 'c': 'd'}]
    return ops


def many(m, n):
    """more recipients than fit into small numbers; two key pairs between them"""
    ops = [{'op': 's.prv', 'o': 'a'}, {'op': 's.prv', 'o': 'b'}, {'op': 's.pub', 'o': 'x'}, {'op': 's.pub', 'o': 'y'},
           {'op': 'p.new', 'o': 'p', 'n': 0}, {'op': 'p.new', 'o': 'm', 'n': n + 1}] + fill(m, ['a', 'b', 'x', 'y'], False)
    ops += [{'op': 'p.seed', 'data': m.rand(48)}, {'op': 'p.menc', 'o': 'm', 'pubs': [m.r.choice('xy') for _ in range(n)], 'pt': m.rand(16)}]
    to = ops[-1]['pubs']
    for i, c in zip((1, n // 2, n), 'cde'):
        ops += [{'op': 'p.take', 'o': 'm', 'i': i, 'c': c}, {'op': 'p.dec', 'o': 'p', 'prv': {'x': 'a', 'y': 'b'}[to[i - 1]], 'c': c}]
    return ops


def pcost(s):
    return 1 + sum({'s.pubgen': 5, 's.derive': 10, 's.val': 4, 'p.enc': 12, 'p.dec': 12, 'p.menc': 10 + 8 * len(o.get('pubs', []))}.get(o['op'], .05)
                   for o in s['ops'])


def pke_mc(ctx):
    return ctx.mc('pke/PkeImpl.tla', os.path.join(SPEC, 'pke', 'PkeImpl2.cfg' if ctx.thorough else 'PkeImpl.cfg'), 'PKE implementation model', workers=8)


@plan('C20')
def c20(ctx):
    big = ctx.thorough
    ops = ['seed', 'alloc', 'enc', 'enc', 'dec', 'menc', 'take', 'take', 'mut']
    c, d = pgen(ops, 12)
    c1, d1 = pgen(['enc', 'dec', 'menc', 'take'], 9, multis='mn', room=2)
    c2, d2 = pgen(['seed', 'enc', 'dec', 'menc', 'take'], 8, 'a', 'x', room=2, seeds=(1,))
    c3, d3 = pgen(['enc', 'dec', 'menc', 'take'], 3, 'a', 'x', room=1, cts='c', bfs=True)
    c4, d4 = pgen(['rekey', 'rekey', 'enc', 'dec', 'menc', 'take'], 14, singles='pq', cts='cd', room=2)
    r = parallel([lambda: pke_mc(ctx), lambda: driver_for(ctx, 'pke'), ctx.ov,
                  lambda: ctx.gen_sim(PG, c, 500 if big else 40, d, 'histories'),
                  lambda: ctx.gen_sim(PG, c1, 400 if big else 30, d1, 'histories of three objects'),
                  lambda: ctx.gen_sim(PG, c2, 400 if big else 30, d2, 'histories with equal seeds'),
                  lambda: ctx.gen_sim(PG, c4, 400 if big else 24, d4, 'histories with changing keys'),
                  lambda: ctx.gen_bfs(PG, c3, 'short histories', limit=400 if big else 60)])
    ctx.add_mc(r[0])
    sc = pscr(ctx, r[3], 'C20a') + pscr(ctx, r[4] + r[5] + r[6] + r[7], 'C20b') + pscr(ctx, r[3][:len(r[3]) // 4], 'C20c', 1)
    m = Mat(ctx.rng_seed('swaps', 'C20'))
    sc += [{'ops': swaps(m)} for _ in range(60 if big else 4)]
    sc += [{'ops': many(m, n)} for n in ([18, 40, 300] if big else [18])]
    if ctx.conform('pke', r[1], sc, 'pke/PkeTrace.tla', PKE_CFG, cost=pcost):
        ctx.conform('without aes, bmi2 and adx', r[1], sc[::6 if big else 12], 'pke/PkeTrace.tla', PKE_CFG, cost=pcost, env={'VH_HIDE': 'aes,bmi2,adx'})
