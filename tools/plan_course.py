"""C25: what SIDH and SIKE execute does not depend on secrets."""
from plan_sidh import *
from plan_conc import COST

# changes of a ciphertext that leave its numbers below the prime: whether it is accepted is
# a secret, whether it is well formed is not
SOFT = ('c0first', 'c1bit', 'c1first', 'c1last', 'c1rand')


def only_course(e):
    return {k: e[k] for k in ('op', 'course', 'pan', 'call', 'what') if k in e}
NORMS['C25'] = only_course


def secrets(hist, ops, m, j):
    """the same calls with other secrets: private keys, messages, whether ciphertexts are accepted"""
    res, var, enc = [], {}, []
    for h, o in zip(hist, ops):
        o = dict(o)
        op = o['op']
        if op in ('k.prv', 'k.init'):
            var[o['o']] = (o['f'], o['v'])
        if op == 'k.imp' and h.get('kind', 'prv') != 'pub' and h.get('cls') != 'bad' and o['o'] in var:
            f, v = var[o['o']]
            d = scalar(m, f, v, j > 1 or m.r.random() < .5)
            if v == 'S':
                d = bytes.fromhex(m.bytes(ML[f])) + d
            if len(d) * 2 == len(o['data']):
                o['data'] = d.hex()
        elif op in ('k.gen', 'e.enc') and o['rng']:
            o['rng'] = m.bytes(len(o['rng']) // 2) if j > 1 else m.rand(len(o['rng']) // 2)
        elif op == 'e.dec' and 'ct' not in o and 'len' not in o and not o.get('bad') and 'add' not in o and soft(h):
            o.pop('mut', None)
            mutate(o, m, m.r.choice(('same', 'same') + SOFT), h['f'] if 'f' in h else o['f0'])
        o.pop('f0', None)
        res.append(o)
    return res


def soft(h):
    return h.get('cls', 'same') in SOFT + ('same',)


def kemlines(m, f, mk, n):
    """a key pair; encapsulations; decapsulations of what came out and of altered ciphertexts"""
    h = [{'op': 'k.prv', 'o': 'a', 'f': f, 'v': 'S'}, {'op': 'k.pub', 'o': 'x', 'f': f, 'v': 'S'},
         {'op': 'k.imp', 'o': 'a', 'len': ML[f] + nbytes(f, 'S'), 'cls': 'rand', 'kind': 'prv', 'f': f, 'v': 'S'},
         {'op': 'k.pubgen', 'prv': 'a', 'pub': 'x'}, {'op': 'e.new', 'o': 'e', 'f': f, 'mk': mk}]
    for i in range(n):
        h.append({'op': 'e.enc', 'o': 'e', 'pub': 'x', 'c': 'c%d' % i, 'ctx': 0, 'ssx': 0, 'chunk': 0, 'rnglen': ML[f]})
        for c in ('same', m.r.choice(SOFT)):
            h.append({'op': 'e.dec', 'o': 'e', 'prv': 'a', 'pub': 'x', 'c': 'c%d' % i, 'ssx': 0, 'f': f, 'cls': c})
    return h


def exlines(m, f, n):
    """exchanges over one public key of the other side"""
    h = [{'op': 'k.prv', 'o': 'a', 'f': f, 'v': 'A'}, {'op': 'k.prv', 'o': 'b', 'f': f, 'v': 'B'},
         {'op': 'k.pub', 'o': 'x', 'f': f, 'v': 'A'}, {'op': 'k.pub', 'o': 'y', 'f': f, 'v': 'B'}]
    for i in range(n):
        for o, v in (('a', 'A'), ('b', 'B')):
            h.append({'op': 'k.imp', 'o': o, 'len': nbytes(f, v), 'cls': m.r.choice(('rand', 'edge')), 'kind': 'prv', 'f': f, 'v': v})
        h += [{'op': 'k.pubgen', 'prv': 'a', 'pub': 'x'}, {'op': 'k.pubgen', 'prv': 'b', 'pub': 'y'},
              {'op': 'k.derive', 'prv': 'a', 'pub': 'y', 'outlen': 2 * FB[f]}, {'op': 'k.derive', 'prv': 'b', 'pub': 'x', 'outlen': 2 * FB[f]}]
    return h


def course_mc(ctx):
    """the masked programs refine the specification; the model notices the other ways to write them"""
    d = os.path.join(SPEC, 'course')
    small = open(os.path.join(d, 'CourseImpl.cfg')).read()
    def bad(h):
        rc, out = ctx.tlc.run(os.path.join(d, 'CourseImpl.tla'), small.replace('"mask"', '"%s"' % h))
        if 'is violated' not in out:
            raise Broken('the model does not notice the habit %s\n%s' % (h, tail(out)))
    return parallel([lambda: ctx.mc('course/CourseImpl.tla', open(os.path.join(d, 'CourseImpl2.cfg' if ctx.thorough else 'CourseImpl.cfg')).read(),
                                    'two runs with different secrets')]
                    + [lambda h=h: bad(h) for h in ('branch', 'skip', 'early', 'pick', 'bail')])[0]


def course_runs(ctx, name, drv, hists, k, tag, what):
    m = Mat(ctx.rng_seed('mat', 'C25' + tag))
    base = [smat(h, m) for h in hists]
    for b in base:
        for o in b:
            for x in [x for x in o if x.endswith('.spare')]:
                del o[x]
    runs = []
    for j in range(k):
        mj = Mat(ctx.rng_seed('secrets%d' % j, tag))
        runs.append(('%s, %s' % (what, 'first secrets' if j == 0 else 'other secrets %d' % j), drv,
                     [{'key': '%s %d' % (name, i), 'ops': strip(b) if j == 0 else strip(secrets(h, b, mj, j)), 'env': {'layout': 'plain'}}
                      for i, (h, b) in enumerate(zip(hists, base))], None, course_cost))
    return runs


def strip(ops):
    return [dict(o) for o in ops]


def course_cost(s):
    return sum(COST.get(o['op'], .1) for o in s['ops']) / 1000


@plan('C25')
def c25(ctx):
    big = ctx.thorough
    k = 10 if big else 2
    gens = []
    for f, n in zip(FIELDS, (24, 16, 8)):
        c, d = sgen(['imp', 'imp', 'impbad', 'move', 'exp', 'gen', 'gen', 'pubgen', 'pubgen', 'derive', 'derive', 'derivebad'], 18, 'ab', 'xy', fields=[f])
        gens.append(lambda c=c, d=d, f=f, n=n: ctx.gen_sim(SG, c, n * k, d, 'keys ' + f))
    gens += kem_gens(ctx, ('sidh', 'mkem'), SOFT, [n * k for n in (14, 9, 5)], ('encfail', 'mut', 'mut'), 20)
    r = parallel([lambda: course_mc(ctx), lambda: driver_for(ctx, 'course'), lambda: driver_for(ctx, 'course-386')] + gens)
    ctx.add_mc(r[0])
    m = Mat(ctx.rng_seed('lines', 'C25'))
    hists = [h for x in r[3:] for h in x]
    for f, n in zip(FIELDS, (8, 5, 3)):
        for i in range(n * k):
            hists += [kemlines(m, f, ('sidh', 'mkem')[i % 2], 3), exlines(m, f, 3)]
    slow = [x for f, n in zip(FIELDS, (2, 1, 1)) for i in range(n * k) for x in (kemlines(m, f, 'sidh', 1), exlines(m, f, 1))]
    for name, drv, hs, n in (('course', r[1], hists, 6 if big else 4), ('course-386', r[2], slow, 5 if big else 3)):
        runs = course_runs(ctx, name, drv, hs, n, name, {'course': 'assembly', 'course-386': 'portable arithmetic'}[name])
        if not ctx.conform_same(name, runs, norm=only_course):
            return
