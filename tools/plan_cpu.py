"""C09: feature detection, and equal results on every combination of features."""
from plans import *
import plan_csidh as pc, plan_hash as ph, plan_sidh as ps, plan_field as pf
from plan_frame import frame_scripts, fcost_ms
import itertools, threading

CPU_CFG = mkcfg(lines=TRACE_LINES + ['VIEW At'])
DRIVERS.update({'cpu': ('cpu', '', False), 'cpusim': ('cpusim', '', False)})


class NoSim(Exception):
    pass


def cpu_files():
    """the detection as a function, its CPUID as a variable"""
    d = os.path.join(REPO, 'utils')
    try:
        go = open(os.path.join(d, 'cpuid_amd64.go')).read()
        asm = open(os.path.join(d, 'cpuid_amd64.s')).read()
    except OSError as e:
        raise NoSim(str(e))
    go, n1 = re.subn(r'(?m)^func init\(\)', 'func VInit()', go)
    go, n2 = re.subn(r'(?m)^func cpuid\((\w+), (\w+) uint32\) \(.*\)\s*$', 'func cpuid(a, c uint32) (uint32, uint32, uint32, uint32) { return VCpuid(a, c) }', go)
    asm, n3 = re.subn('·cpuid\\(SB\\)', '·cpuidHW(SB)', asm)
    if (n1, n2, n3) != (1, 1, 1):
        raise NoSim('the detection code has another form')
    go += '''
func cpuidHW(a, c uint32) (eax, ebx, ecx, edx uint32)

var VCpuid func(a, c uint32) (uint32, uint32, uint32, uint32)

func VReset() {
	X86.HasAES, X86.HasBMI2, X86.HasADX, X86.HasRDSEED = false, false, false, false
}
'''
    return {'utils/cpuid_amd64.go': go, 'utils/cpuid_amd64.s': asm}


OVERLAYS['cpusim'] = cpu_files


def sim_driver(ctx):
    try:
        return driver_for(ctx, 'cpusim')
    except NoSim as e:
        return None
    except Broken as e:
        # does the tree build at all?
        driver_for(ctx, 'cpu')
        return None


REL = {'ecx1': [25], 'ebx7': [8, 18, 19]}


def proc(p):
    def regs(on, reg, rel):
        noise = {'clear': [], 'set': range(32), 'odd': range(1, 32, 2), 'even': range(0, 32, 2)}[p['noise']]
        r = {k: sorted(noise) for k in ('eax', 'ebx', 'ecx', 'edx')}
        if reg:
            r[reg] = sorted(set(x for x in noise if x not in rel) | set(on))
        return r
    l1, l7 = regs(p['a'], 'ecx', [25]), regs(p['b'], 'ebx', [8, 18, 19])
    inv = {k: sorted(set(range(32)) - set(v)) for k, v in l7.items()}
    z = {k: [] for k in l1}
    one = {k: list(range(32)) for k in l1}
    beyond = {'clear': z, 'set': one, 'last': {0: z, 1: l1}.get(p['max'], l7 if p['max'] == 7 else one)}[p['beyond']]
    return {'op': 'cpu.sim', 'max': p['max'], 'l1': l1, 'l7': l7, 'l7b': inv, 'beyond': beyond}


FEATS = ['aes', 'bmi2', 'adx', 'rdseed']


@plan('C09')
def c09(ctx):
    big = ctx.thorough
    mc = mkcfg(lines=['SPECIFICATION Spec', 'INVARIANT Runs', 'PROPERTY Refines', 'PROPERTY Detected', 'CHECK_DEADLOCK FALSE'])
    gen = mkcfg(lines=['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE', 'ACTION_CONSTRAINT EmitTransition'], consts=dict(Depth=1))
    r = parallel([lambda: ctx.mc('cpu/CpuImpl.tla', mc, 'detection and dispatch', workers=2),
                  lambda: driver_for(ctx, 'cpu'), lambda: sim_driver(ctx), ctx.ov,
                  lambda: ctx.gen_bfs('cpu/CpuGen.tla', gen, 'processors')])
    ctx.add_mc(r[0])
    if not ctx.conform('this machine', r[1], [{'ops': [{'op': 'cpu.real'}]}], 'cpu/CpuTrace.tla', CPU_CFG):
        return
    if r[2] is None:
        ctx.assumptions.append('detection not run on simulated processors: the code has another form')
    elif not ctx.conform('simulated processors', r[2], [{'ops': [proc(o['p']) for h in r[4][i::8] for o in h]} for i in range(8)], 'cpu/CpuTrace.tla', CPU_CFG):
        return
    # the same calls under every combination of features, and in the portable builds
    k = 12 if big else 1
    names = ('conc', 'aes', 'hash', 'hash-noasm', 'hash-appengine', 'sidh', 'sidh-386', 'csidh', 'csidh-noasm', 'field', 'field-gen')
    g = parallel([lambda: frame_scripts(ctx, k, 'C09'), lambda: same_exchange(ctx, k),
                  lambda: ctx.gen_bfs(pf.FG, pf.one_cfg('sidh', pf.SOPS), 'field instructions'),
                  lambda: ctx.gen_bfs(pf.FG, pf.one_cfg('csidh', pf.COPS), 'CSIDH field instructions')]
                 + [lambda n=n: driver_for(ctx, n) for n in names])
    drv = dict(zip(names, g[4:]))
    kinds = g[0]
    kinds['sidh'] += g[1]['sidh']
    kinds['csidh'] += g[1]['csidh']
    for n, ss in kinds.items():
        for i, s in enumerate(ss):
            s['key'] = '%s %d' % (n, i)
    copies = lambda sc: [dict(x, ops=list(x['ops'])) for x in sc]
    everything = [s for n, x in kinds.items() if n != 'aes' for s in x]
    subsets = [','.join(x) for n in range(1, len(FEATS) + 1) for x in itertools.combinations(FEATS, n)]
    for d, scripts in (('conc', everything), ('aes', kinds['aes'])):
        runs = [('%s, all features' % d, drv[d], copies(scripts), {'VH_HIDE': ''}, fcost_ms)]
        for i, h in enumerate(subsets):
            # every history meets several of the combinations, the ones that hide everything always
            part = scripts if big or h.startswith('aes,bmi2,adx') else [s for j, s in enumerate(scripts) if (j + i) % 4 == 0]
            runs.append(('%s without %s' % (d, h.replace(',', ' ')), drv[d], copies(part), {'VH_HIDE': h}, fcost_ms))
        if d == 'conc':
            for n, b, w in (('hash', 'hash-noasm', 1), ('hash', 'hash-appengine', 1), ('csidh', 'csidh-noasm', 3), ('sidh', 'sidh-386', 20)):
                cost = lambda s, w=w: w * fcost_ms(s)
                part = kinds[n] if big or w < 20 else kinds[n][::2]
                runs.append((b, drv[b], copies(part), {'VH_HIDE': ''}, cost))
                runs.append(('%s, plain processor' % b, drv[b], copies(part[::2]), {'VH_HIDE': ','.join(FEATS)}, cost))
        if not ctx.conform_same(d, runs, norm=None):
            return
    # field routines: the same operands in every variant
    lanes = 600 if big else 40
    def fs(fl, part):
        r = []
        for f in ps.FIELDS + ('p511',):
            sc = pf.fscr(ctx, f, g[3] if f == 'p511' else g[2], [], lanes * (4 if f == 'p511' else 1), 0, fl, salt='C09')
            for i, s in enumerate(sc):
                s['key'] = '%s %d' % (f, i)
            r += sc
        return r[part::2] if part is not None else r
    runs = [('field routines with ' + n, drv['field'], fs(fl, None), None, None) for n, fl in pf.FLAGS]
    runs.append(('field routines, generic', drv['field-gen'], fs({}, None), None, None))
    ctx.conform_same('field', runs, norm=same_numbers)


def same_exchange(ctx, k):
    """complete key agreements and encapsulations"""
    m = Mat(ctx.rng_seed('C09x'))
    s = []
    for f, n in zip(ps.FIELDS, (16, 10, 4)):
        for i in range(n * k):
            s.append({'ops': ps.exchange(m, f, i % 2 == 0)})
            s.append({'ops': ps.kemscripts(m, f, 'sidh', ['same', m.r.choice(['c0bit', 'c1bit'])], 1)})
    return {'sidh': s, 'csidh': [{'ops': pc.csidh_exchange(m, a, b, 1)} for a, b in [('small', 'first'), ('few', 'neg'), ('rand', 'rand'), ('ext', 'pos')] * k]}


STATE = threading.local()


def same_numbers(e):
    """what of a field instruction has to be the same in every variant: the numbers, not how
    they are represented (values may be given up to a multiple of the prime)"""
    op = e['op']
    if op == 'f.new':
        STATE.p, STATE.w = pf.primes()[e['field']]
        return {k: v for k, v in e.items() if k not in ('adx', 'bmi2')}
    if op in ('f.load', 'x.load', 'absent') or op[:2] not in ('f.', 'x.') or op in ('f.wmul', 'f.wmulfull', 'f.wsub', 'f.cswap', 'f.qswap', 'f.less'):
        return e
    def nums(outs, n):
        return [[r, [int.from_bytes(bytes(b[i:i + n]), 'little') % STATE.p for i in range(0, len(b), n)]] for r, b in outs]
    # what rdc leaves of its operand does not matter
    return dict(e, outs=nums(e['outs'], 8 * STATE.w), xouts=[] if op == 'f.rdc' else nums(e['xouts'], 16 * STATE.w))


NORMS['C09'] = same_numbers
