"""Shared machinery of the checks: building, generation, driving, validation."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """The check itself cannot give an answer."""


def goenv(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GO111MODULE='on',
             GOWORK=os.path.join(ROOT, 'harness', 'go.work'))
    e.setdefault('HOME', '/root')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    if extra:
        e.update(extra)
    return e


def sh(cmd, timeout=600, env=None, cwd=None, check=True):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=env, cwd=cwd)
    out = p.stdout.decode('utf-8', 'replace')
    if check and p.returncode != 0:
        raise Broken('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd)[:300], out[-3000:]))
    return p.returncode, out


# ---------------------------------------------------------------- building
def overrides():
    """Compile the Java overrides of the function library; returns the class path entry."""
    src = sorted(os.path.join(ROOT, 'java', 'nv', f) for f in os.listdir(os.path.join(ROOT, 'java', 'nv')))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    d = os.path.join(BUILD, 'classes-' + h)
    if not os.path.isdir(d):
        tmp = d + '.tmp%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        sh(['javac', '-nowarn', '-cp', JARS, '-d', tmp] + src)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


OVERLAYS = {}       # command -> function giving generated overlay files


def build_driver(name, out, tags='', race=False, env=None, cover=None):
    """Build harness/cmd/<name> against the current tree of /repo (overlays included)."""
    ov = {'Replace': {}}
    od = os.path.join(ROOT, 'harness', 'overlay', name)
    if os.path.isdir(od):
        for dp, _, fs in os.walk(od):
            for f in fs:
                rel = os.path.relpath(os.path.join(dp, f), od)
                # the suffix keeps the go tool from treating these as packages of the harness
                assert f.endswith('.go.txt')
                ov['Replace'][os.path.join(REPO, rel[:-4])] = os.path.join(dp, f)
    optional = {}
    if name in OVERLAYS:
        gd = out + '.ov'
        os.makedirs(gd, exist_ok=True)
        for rel, text in OVERLAYS[name]().items():
            f = os.path.join(gd, rel.replace('/', '_') + '.txt')
            open(f, 'w').write(text)
            ov['Replace'][os.path.join(REPO, rel)] = f
            if rel.endswith('_opt.go'):
                optional[os.path.basename(f)[:-4]] = os.path.join(REPO, rel)
                optional[rel] = os.path.join(REPO, rel)
    ovf = out + '.overlay.json'
    cmd = ['go', 'build', '-overlay', ovf, '-o', out]
    if tags:
        cmd += ['-tags', tags]
    if race:
        cmd += ['-race', '-gcflags=all=-d=checkptr=0']
    if cover:
        # the command itself must be among the packages, or the counters cannot be read
        cmd += ['-cover', '-covermode=atomic', '-coverpkg=a0/cmd/%s,%s' % (name, cover)]
    for attempt in range(6):
        with open(ovf, 'w') as fh:
            json.dump(ov, fh)
        rc, log = sh(cmd + ['./cmd/' + name], env=goenv(env), cwd=os.path.join(ROOT, 'harness'), timeout=800, check=False)
        if rc == 0:
            return out
        # leave out the optional files the compiler complains about
        bad = {v for k, v in optional.items() for m in re.findall(r'(\S+_opt\.go)', log) if m.endswith(k) and v in ov['Replace']}
        if not bad:
            break
        for b in bad:
            del ov['Replace'][b]
    raise Broken('building %s failed:\n%s' % (name, log[-3000:]))


# ---------------------------------------------------------------- TLC
def spec_dirs():
    return [os.path.join(SPEC, d) for d in sorted(os.listdir(SPEC)) if os.path.isdir(os.path.join(SPEC, d))]


class Tlc:
    def __init__(self, rundir):
        self.rundir = rundir
        self.n = 0

    def run(self, module, cfg, args=(), env=None, workers=1, ov=None, xmx='3g', timeout=800, classes='nv.Ov:nv.OvC'):
        """module: path of a .tla file; cfg: path or text.  Returns (rc, output)."""
        self.n += 1
        tag = '%s-%d-%d' % (os.path.basename(module)[:-4], self.n, random.getrandbits(20))
        if '\n' in cfg:
            p = os.path.join(self.rundir, tag + '.cfg')
            open(p, 'w').write(cfg)
            cfg = p
        md = os.path.join(self.rundir, 'md-' + tag)
        cp = JARS
        j = ['java', '-Xmx' + xmx, '-Xss512m', '-DTLA-Library=' + ':'.join(spec_dirs()),
             '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4']
        if ov:
            cp += ':' + ov
            j.append('-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:' + classes)
        j += ['-cp', cp, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', md, '-workers', str(workers),
              '-config', cfg] + list(args) + [module]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            rc, out = sh(j, timeout=timeout, env=e, check=False)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return rc, out


def counts(out):
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out)
    if not m:
        m2 = re.findall(r'The number of states generated: ([\d,]+)', out)
        return (int(m2[-1].replace(',', '')), 0) if m2 else (0, 0)
    return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))


def tla(v):
    """Python value -> TLA+ text for a cfg file."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, list, tuple, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    raise ValueError(v)


def mkcfg(consts=None, subst=None, lines=()):
    s = ['CONSTANTS']
    for k, v in (consts or {}).items():
        s.append('  %s = %s' % (k, tla(v)))
    for k, v in (subst or {}).items():
        s.append('  %s <- %s' % (k, v))
    if len(s) == 1:
        s = []
    return '\n'.join(s + list(lines)) + '\n'


def tail(out, n=3000):
    ls = [x for x in out.splitlines() if not re.match(r'Parsing file|Semantic processing|Linting of|"SCRIPT', x)]
    return '\n'.join(ls)[-n:]


def thin(scripts, seed):
    """In simulation the invariant that prints sees every successor of the last state but
    one; keep one of them."""
    groups = {}
    for s in scripts:
        groups.setdefault(json.dumps(s[:-1]), []).append(s)
    r = random.Random(seed)
    return [r.choice(g) for g in groups.values()]


def scripts_of(out):
    """The histories a generator printed, in order, without repetitions."""
    res, seen = [], set()
    for ln in out.splitlines():
        if ln.startswith('"SCRIPT '):
            t = json.loads(ln)[7:]
            if t not in seen:
                seen.add(t)
                res.append(json.loads(t))
    return res


# ---------------------------------------------------------------- known findings
def known_findings():
    """known-findings.txt: lines 'known: property=<id> tag=<tag> <what>' and 'fixed: ...'."""
    r = []
    for ln in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) tag=(\S+) (.*)', ln)
        if m:
            r.append(m.groups())
    return r


# ---------------------------------------------------------------- materialisation
class Mat:
    """Turns abstract scripts into concrete ones; every choice comes from the seed."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def bytes(self, n):
        c = self.r.random()
        if n == 0:
            return ''
        if c < 0.72:
            return self.r.randbytes(n).hex()
        if c < 0.80:
            return '00' * n
        if c < 0.88:
            return 'ff' * n
        if c < 0.94:
            return bytes((i * 7 + 1) & 255 for i in range(n)).hex()
        b = bytearray(n)
        b[self.r.randrange(n)] = 1 << self.r.randrange(8)
        return bytes(b).hex()

    def rand(self, n):
        return self.r.randbytes(n).hex()


# ---------------------------------------------------------------- the check context
class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        os.makedirs(BUILD, exist_ok=True)
        self.dir = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.tlc = Tlc(self.dir)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'events_validated': 0, 'operations': {}, 'model_checking': [], 'generators': [],
                    'samples': []}
        self.known_seen = {}
        self.violations = []
        self.known = [(p, t, w) for p, t, w in known_findings()]
        self.assumptions = []
        self._ov = None

    def ov(self):
        if self._ov is None:
            self._ov = overrides()
        return self._ov

    def rng_seed(self, *parts):
        return int.from_bytes(hashlib.sha256(repr((self.seed,) + parts).encode()).digest()[:7], 'big')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- model checking of the specification itself
    def mc(self, module, cfg, name, workers=4, xmx='6g', ov=False, timeout=800, args=()):
        t = time.time()
        rc, out = self.tlc.run(os.path.join(SPEC, module), cfg, args=args, workers=workers, xmx=xmx,
                               ov=self.ov() if ov else None, timeout=timeout)
        if rc != 0 or 'No error has been found' not in out:
            raise Broken('model checking of %s (%s) failed:\n%s' % (module, name, tail(out, 4000)))
        gen, dis = counts(out)
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        return {'spec': module, 'config': name, 'states_generated': gen, 'distinct_states': dis,
                'depth': int(m.group(1)) if m else 0, 'seconds': round(time.time() - t, 1)}

    def add_mc(self, r):
        self.cov['model_checking'].append(r)
        self.cov['states'] += r['distinct_states']
        self.cov['transitions'] += r['states_generated']

    # ---- generation
    def gen_sim(self, module, cfg, num, depth, name, limit=None, salt=0):
        seed = self.rng_seed('gen', name, salt) % (2**31)
        rc, out = self.tlc.run(os.path.join(SPEC, module), cfg, workers=1, xmx='2g',
                               args=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(seed)])
        s = thin(scripts_of(out), self.rng_seed('thin', name, salt))
        if rc != 0 or not s:
            raise Broken('generation with %s failed (%d):\n%s' % (module, rc, tail(out)))
        gen, _ = counts(out)
        self.cov['generators'].append({'spec': module, 'mode': 'simulate', 'name': name, 'scripts': len(s),
                                       'states_generated': gen})
        return s[:limit] if limit else s

    def gen_bfs(self, module, cfg, name, limit=None):
        rc, out = self.tlc.run(os.path.join(SPEC, module), cfg, workers=1, xmx='4g')
        s = scripts_of(out)
        if rc != 0 or not s:
            raise Broken('generation with %s failed (%d):\n%s' % (module, rc, tail(out)))
        gen, dis = counts(out)
        total = len(s)
        if limit and total > limit:
            random.Random(self.rng_seed('bfs', name)).shuffle(s)
            s = s[:limit]
        self.cov['generators'].append({'spec': module, 'mode': 'one script per transition', 'name': name,
                                       'transitions': total, 'scripts': len(s), 'distinct_states': dis})
        return s

    # ---- driving the real code
    def drive(self, driver, scripts, tag, env=None, timeout=700):
        sf = os.path.join(self.dir, tag + '.script')
        tf = os.path.join(self.dir, tag + '.trace')
        with open(sf, 'w') as fh:
            for s in scripts:
                fh.write(json.dumps(s) + '\n')
        e = dict(os.environ)
        e['GODEBUG'] = ''
        e['GORACE'] = 'halt_on_error=1 exitcode=66'
        e.update(env or {})
        rc, out = sh([driver, sf, tf], env=e, timeout=timeout, check=False)
        if rc == 3 or (rc != 0 and not os.path.exists(tf + '.at')):
            raise Broken('driver ended with %d: %s' % (rc, out[-2000:]))
        if rc != 0:
            # the process died (memory fault, fatal error, race report): the trace is what
            # is known about the script that was running
            sid = int(open(tf + '.at').read())
            with open(tf, 'w') as fh:
                fh.write('{"op":"begin","id":%d,"th":0}\n' % sid)
                m = re.search(r'^(fatal error: .*|panic: .*|SIG\w+.*|WARNING: DATA RACE|unexpected fault.*)$', out, re.M)
                fh.write(json.dumps({'op': 'crash', 'pan': True, 'fr': [], 'rc': rc,
                                     'what': m.group(1) if m else out[-300:]}, separators=(',', ':')) + '\n')
        return tf

    # ---- validation
    def validate_file(self, module, cfg, tf, aspects, xmx='2500m', timeout=800, extra=None):
        """Returns (accepted events or None if all accepted, output, total events)."""
        of = tf + '.opts'
        o = {'aspects': sorted(aspects), 'known': [t for _, t, _ in self.known]}
        o.update(extra or {})
        t0 = time.time()
        with open(of, 'w') as fh:
            json.dump(o, fh)
        total = sum(1 for _ in open(tf))
        rc, out = self.tlc.run(os.path.join(SPEC, module), cfg, workers=1, ov=self.ov(), xmx=xmx,
                               env={'TRACE': tf, 'OPTS': of}, timeout=timeout)
        note('%s: %d events in %.1fs' % (os.path.basename(tf), total, time.time() - t0))
        for m in re.finditer(r'<<"KNOWN", "([^"]+)">>', out):
            self.known_seen[m.group(1)] = self.known_seen.get(m.group(1), 0) + 1
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        gen, dis = counts(out)
        if 'No error has been found' in out and rc == 0 and m and int(m.group(1)) == total + 1:
            return None, out, total
        if m and ('ostcondition' in out or 'POSTCONDITION' in out) and 'evaluating' not in out:
            d = int(m.group(1)) - 1
            if d < total:
                return d, out, total
        raise Broken('trace validation with %s gave no verdict (rc %d):\n%s' % (module, rc, tail(out, 5000)))

    def conform(self, name, driver, scripts, module, cfg, aspects=(), env=None, shards=NCPU, cost=None,
                timeout=800, rerun=3, extra=None, xmx='2500m'):
        """Run scripts on the real code and validate the recorded traces.  scripts: list of dicts
        with 'ops' or 'threads'."""
        for i, s in enumerate(scripts):
            s['id'] = i
        def one(b):
            k, ss = b
            tag = '%s-%d' % (name.replace(' ', '_'), k)
            t0 = time.time()
            tf = self.drive(driver, ss, tag, env=env, timeout=timeout)
            note('%s driven in %.1fs' % (tag, time.time() - t0))
            return ss, tf, self.validate_file(module, cfg, tf, aspects, timeout=timeout, extra=extra, xmx=xmx)
        bad = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for ss, tf, (d, out, total) in ex.map(one, enumerate(balance(scripts, shards, cost))):
                self.count(tf, d)
                if d is not None:
                    bad.append((ss, tf, d, out))
                else:
                    os.remove(tf)
        self.sample(name, scripts)
        for ss, tf, d, out in bad[:1 if time.time() - self.t0 > 200 else 2]:
            self.reproduce(name, driver, ss, tf, d, out, module, cfg, aspects, env, rerun, timeout, extra)
        return not bad

    def count(self, tf, d):
        ops = {}
        nb = 0
        with open(tf) as fh:
            for i, ln in enumerate(fh):
                if d is not None and i >= d:
                    break
                m = re.search(r'"op":"([^"]+)"', ln)
                if m.group(1) == 'begin':
                    nb += 1
                else:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        for k, v in ops.items():
            self.cov['operations'][k] = self.cov['operations'].get(k, 0) + v
        self.cov['events_validated'] += sum(ops.values())
        self.cov['traces_validated_against_impl'] += nb
        self.cov['states'] += sum(ops.values()) + nb
        self.cov['transitions'] += sum(ops.values()) + nb

    def sample(self, name, scripts):
        if scripts and len(self.cov['samples']) < 6:
            s = scripts[self.rng_seed('sample', name) % len(scripts)]
            self.cov['samples'].append({'conformance': name, 'script': brief(s)})

    def conform_same(self, name, runs, aspects=(), norm=None, rerun=3, timeout=800, chance=False):
        """Recordings that must look alike.  runs: [(name, driver, scripts, env, cost)], the first
        that has a script being the reference; scripts with the same 'key' are about the same
        calls.  Judged by SameTrace.  chance: a rejected recording stands even if it does not
        come up again, as what happens may depend on how threads happen to run."""
        jobs = []
        for rn, (tag, driver, scripts, env, cost) in enumerate(runs):
            for i, s in enumerate(scripts):
                s['id'] = i
            n = max(1, min(NCPU, round(sum(map(cost, scripts)) / 4))) if cost else NCPU
            jobs += [(rn, k, ss) for k, ss in enumerate(balance(scripts, n, cost))]
            self.sample(tag, scripts)
        jobs.sort(key=lambda j: -sum(map(runs[j[0]][4] or (lambda s: 1), j[2])))
        def go(j):
            rn, k, ss = j
            tag, driver, _, env, _ = runs[rn]
            t0 = time.time()
            tf = self.drive(driver, ss, '%s-%d-%d' % (re.sub(r'\W', '_', tag), rn, k), env=env, timeout=timeout)
            note('%s-%d driven in %.1fs' % (tag, k, time.time() - t0))
            return tf
        with cf.ThreadPoolExecutor(NCPU) as ex:
            tfs = list(ex.map(go, jobs))
        recs = {}
        for (rn, k, ss), tf in zip(jobs, tfs):
            keys = {s['id']: s['key'] for s in ss}
            for r in recordings(tf, keys, norm):
                recs.setdefault(r['key'], []).append(dict(r, run=rn, shard=k))
            os.remove(tf)
        shards = {(rn, k): ss for rn, k, ss in jobs}
        bins = [[0, []] for _ in range(NCPU)]
        for key in sorted(recs):
            recs[key].sort(key=lambda r: r['run'])
            b = min(bins, key=lambda b: b[0])
            b[0] += sum(len(r['evs']) for r in recs[key])
            b[1].append(key)
        bins = [b for b in bins if b[1]]
        def judge(i):
            t = os.path.join(self.dir, '%s.same.%d' % (re.sub(r'\W', '_', name), i))
            where = write_same(t, [(k, recs[k]) for k in bins[i][1]])
            return t, where, self.validate_file('lib/SameTrace.tla', SAME_CFG, t, aspects, timeout=timeout)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(judge, range(len(bins))))
        self.cov['recordings'] = self.cov.get('recordings', 0) + sum(map(len, recs.values()))
        bad = []
        for t, where, (d, out, total) in res:
            self.count(t, d)
            if d is not None:
                bad.append((where[d], d, out))
            os.remove(t)
        for (key, r, i), d, out in bad[:1 if time.time() - self.t0 > 200 else 2]:
            ref = recs[key][0]
            tag, driver, _, env, _ = runs[r['run']]
            rtag, rdriver, _, renv, _ = runs[ref['run']]
            script = [s for s in shards[r['run'], r['shard']] if s['id'] == r['id']][0]
            rscript = [s for s in shards[ref['run'], ref['shard']] if s['id'] == ref['id']][0]
            how = dict(module='lib/SameTrace.tla', aspects=sorted(aspects), runs=[
                dict(driver=os.path.basename(rdriver), env=renv or {}, scripts=[rscript], name=rtag),
                dict(driver=os.path.basename(driver), env=env or {}, scripts=[script], name=tag)])
            def show(x, i):
                return json.loads(x['evs'][i][2]) if i < len(x['evs']) else 'nothing'
            detail = dict(recording=tag, reference=rtag, key=key, observed=show(r, i), expected=show(ref, i))
            again = False
            for attempt in range(rerun):
                if self.same_again(how, {how['runs'][0]['driver']: rdriver, how['runs'][1]['driver']: driver}, norm):
                    again = True
                    break
            if not again and not chance:
                # with what the process did before
                how['runs'][1]['scripts'] = [s for s in shards[r['run'], r['shard']] if s['id'] <= r['id']]
                how['runs'][0]['scripts'] = [s for s in shards[ref['run'], ref['shard']] if s['id'] <= ref['id']]
                if not self.same_again(how, {how['runs'][0]['driver']: rdriver, how['runs'][1]['driver']: driver}, norm):
                    raise Broken('rejected recording %s did not reproduce: %s\n%s' % (key, json.dumps(detail)[:1500], tail(out, 800)))
            self.report(name, [], detail, out, how)
        return not bad

    def same_again(self, how, drivers, norm):
        """does the difference show when the recordings are made again?"""
        recs = {}
        for n, x in enumerate(how['runs']):
            tf = self.drive(drivers[x['driver']], x['scripts'], 'again-%d-%d' % (n, random.getrandbits(30)), env=x['env'])
            for r in recordings(tf, {s['id']: s['key'] for s in x['scripts']}, norm):
                recs.setdefault(r['key'], []).append(dict(r, run=n))
            os.remove(tf)
        t = os.path.join(self.dir, 'again.%d' % random.getrandbits(30))
        write_same(t, sorted((k, v) for k, v in recs.items() if v[0]['run'] == 0))
        return self.validate_file('lib/SameTrace.tla', SAME_CFG, t, how['aspects'])[0] is not None

    def reproduce(self, name, driver, ss, tf, d, out, module, cfg, aspects, env, rerun, timeout, extra=None):
        lines = open(tf).read().splitlines()
        ev = json.loads(lines[d])
        k = max(i for i in range(d + 1) if '"op":"begin"' in lines[i])
        sid = json.loads(lines[k])['id']
        script = [s for s in ss if s['id'] == sid][0]
        how = dict(driver=os.path.basename(driver), module=module, cfg=cfg, aspects=sorted(aspects), env=env or {}, extra=extra or {})
        for attempt, cand in enumerate([[script]] * rerun + [[s for s in ss if s['id'] <= sid]] * 2):
            tf2 = self.drive(driver, cand, '%s-re%d' % (name.replace(' ', '_'), attempt), env=env, timeout=timeout)
            r = self.validate_file(module, cfg, tf2, aspects, timeout=timeout, extra=extra)
            if r[0] is not None:
                l2 = open(tf2).read().splitlines()
                self.report(name, cand, json.loads(l2[r[0]]), r[1], how)
                return
        raise Broken('rejected trace of script %d did not reproduce: event %s\n%s'
                     % (sid, json.dumps(ev)[:600], tail(out, 1500)))

    def report(self, name, scripts, ev, out, how):
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, re.sub(r'[^A-Za-z0-9._-]+', '_', '%s-%s-%d.json' % (self.pid, name, len(self.violations))))
        mm = [x for x in out.splitlines() if 'MISMATCH' in x]
        with open(path, 'w') as fh:
            json.dump({'property': self.pid, 'conformance': name, 'seed': self.seed, 'tier': self.tier,
                       'how': how, 'rejected_event': ev, 'specification': mm[-3:], 'scripts': scripts}, fh, indent=1)
        self.violations.append(path)
        print('rejected by %s: event %s' % (how['module'], json.dumps(ev)[:400]))
        for x in mm[-3:]:
            print('   ', x[:400])
        print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)

    def evidence(self):
        ed = os.path.join(ROOT, 'evidence')
        os.makedirs(ed, exist_ok=True)
        d = {'property': self.pid, 'tier': 'thorough' if self.thorough else 'quick', 'seed': self.seed,
             'level': 'model_checking', 'coverage': self.cov, 'assumptions': self.assumptions,
             'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(ed, self.pid + '.json'), 'w') as fh:
            json.dump(d, fh, indent=1)


def note(x):
    if os.environ.get('VERIF_TIMES'):
        print('  ' + x, flush=True)


def balance(scripts, n, cost=None):
    """scripts in at most n parts of about equal cost, each in the order of the ids"""
    if cost is None:
        cost = lambda s: sum(20 + len(json.dumps(o)) for o in s.get('ops', sum(s.get('threads', []), [])))
    bins = [[0, k, []] for k in range(max(1, min(n, len(scripts))))]
    for s in sorted(scripts, key=cost, reverse=True):
        b = min(bins)
        b[2].append(s)
        b[0] += cost(s)
    return [sorted(b[2], key=lambda s: s['id']) for b in bins]


SAME_CFG = mkcfg(lines=['SPECIFICATION Spec', 'POSTCONDITION Accepted', 'CHECK_DEADLOCK FALSE'])


def recordings(tf, keys, norm=None):
    """the blocks of a trace: key, id, events (call, digest of what was observed, line)"""
    res = []
    for ln in open(tf):
        if '"op":"begin"' in ln[:400] and json.loads(ln)['op'] == 'begin':
            b = json.loads(ln)
            res.append({'key': '%s %s' % (keys[b['id']], b.get('blk', '')), 'id': b['id'], 'evs': []})
            continue
        m = re.search(r'"op":"([^"]+)"', ln)
        e = None
        if norm or '"panic"' in ln or m.group(1) in ('hang', 'crash') or '"fr":[]' not in ln:
            e = json.loads(ln)
            fr = e.pop('fr', [])
            e.pop('panic', None)
            if norm:
                e = norm(e)
            x = json.dumps(dict(e, fr=[]), sort_keys=True, separators=(',', ':'))
        else:
            x, fr = ln.rstrip(), []
            # the driver writes fields in order
        op = m.group(1) if e is None else e['op']
        if op in ('hang', 'crash'):
            c = {'op': op, 'call': e.get('call', e.get('what', '')), 'fr': []}
        else:
            c = {'op': 'call', 'k': op, 'v': hashlib.sha256(x.encode()).hexdigest()[:24], 'fr': fr}
        res[-1]['evs'].append((op, c, ln))
    return res


def write_same(t, groups):
    """the compact trace of groups of recordings; returns where its events come from"""
    where = []
    with open(t, 'w') as fh:
        def put(x, w):
            fh.write(json.dumps(x, separators=(',', ':')) + '\n')
            where.append(w)
        for key, rs in groups:
            for n, r in enumerate(rs):
                put({'op': 'begin', 'key': key, 'ref': n == 0}, (key, r, 0))
                for i, (op, c, ln) in enumerate(r['evs']):
                    put(c, (key, r, i))
                if not (r['evs'] and r['evs'][-1][0] in ('hang', 'crash')):
                    put({'op': 'end', 'fr': []}, (key, r, len(r['evs'])))
    return where


def brief(x, lim=120):
    if isinstance(x, dict):
        return {k: brief(v, lim) for k, v in x.items()}
    if isinstance(x, list):
        return [brief(v, lim) for v in x[:30]]
    if isinstance(x, str) and len(x) > lim:
        return x[:lim] + '...(%d)' % len(x)
    return x


def parallel(jobs):
    """jobs: list of functions; runs them concurrently and raises the first failure."""
    with cf.ThreadPoolExecutor(max(1, len(jobs))) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]
