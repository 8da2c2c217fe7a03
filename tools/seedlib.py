#!/usr/bin/env python3
"""Makes and tests planted bugs.  seedlib.py test ID.. [--checks all|own] [-j N]
A bug is tried on a copy of /repo (and of /verif) bound over the originals in a mount
namespace of its own."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# runs the in-package test beside this file; cwd is the repository
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GO111MODULE=on GOWORK=/opt/vp/go.work
printf '{"Replace": {"%s": "%s"@MORE@}}' "$R/@PKG@/zz_demo_test.go" "$D/demo.go.txt"@ARGS@ > "$T/ov.json"
cd "$R/@PKG@" || exit 2
timeout 250 go test @FLAGS@ -vet=off -count=1 -overlay "$T/ov.json" -run '^TestDemo$' .
'''
# two runs, whose execution profiles must be the same
TWICE = DEMO[:DEMO.index('timeout')] + '''for i in 1 2; do
  DEMO=$i timeout 120 go test @FLAGS@ -coverprofile="$T/p$i" -vet=off -count=1 -overlay "$T/ov.json" -run '^TestDemo$' . || exit 1
done
diff "$T/p1" "$T/p2"
'''


def make(id, prop, pkg, edits, demo, needs, breaks, flags='', over=None):
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seedmk')
    try:
        for f in {e[0] for e in edits}:
            for w in 'ab':
                os.makedirs(os.path.join(t, w, os.path.dirname(f)), exist_ok=True)
                shutil.copy(os.path.join('/repo', f), os.path.join(t, w, f))
        for f, old, new in edits:
            p = os.path.join(t, 'b', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        p = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a', 'b'], cwd=t, stdout=subprocess.PIPE)
        out = p.stdout.decode()
        assert out
        # paths a/a/x b/b/x -> a/x b/x
        out = out.replace('a/a/', 'a/').replace('b/b/', 'b/')
        open(os.path.join(d, 'patch.diff'), 'w').write(out)
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.go.txt'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write((TWICE if '-coverpkg' in flags else DEMO).replace('@PKG@', pkg).replace('@FLAGS@', flags)
                                            .replace('@MORE@', ', "%s": "%s"' * len(over or {})).replace('@ARGS@', ''.join(' "$R/%s" "$D/%s.txt"' % (f, os.path.basename(f)) for f in over or {})))
    for f, text in (over or {}).items():
        open(os.path.join(d, os.path.basename(f) + '.txt'), 'w').write(text)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


INNER = r'''
set -u
mount --bind %(t)s/repo /repo
mount --bind %(t)s/verif /verif
cd /repo
bash %(s)s/demo.sh > %(t)s/demo0.log 2>&1; echo "demo-clean $?"
git apply %(s)s/patch.diff || { echo "apply failed"; exit 1; }
bash /opt/vp/build.sh > %(t)s/build.log 2>&1; echo "build $?"
bash %(s)s/demo.sh > %(t)s/demo1.log 2>&1; echo "demo-bug $?"
%(test)s
for c in %(checks)s; do
  (cd /verif && timeout 900 python3 tools/check.py $c > %(t)s/$c.log 2>&1; echo "check $c $?"; grep -h '^VIOLATION\|^NO ANSWER' %(t)s/$c.log | head -2)
done
'''


def test(id, checks, tests=True, keep=False):
    d = os.path.join(ROOT, 'seeded', id)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='seed-%s-' % id)
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
        os.makedirs(t + '/verif')
        for x in os.listdir(ROOT):
            if x not in ('seeded', 'evidence', '.git', 'build'):
                subprocess.run(['cp', '-a', os.path.join(ROOT, x), t + '/verif/'], check=True)
        os.makedirs(t + '/verif/evidence')
        os.makedirs(t + '/verif/build')
        shutil.copytree(d, t + '/seed')
        cs = {'own': [prop], 'none': []}.get(checks) if checks in ('own', 'none') else checks.split(',')
        sc = INNER % dict(t=t, s=t + '/seed', checks=' '.join(cs),
                          test='bash /opt/vp/test.sh %s/test.json >/dev/null 2>&1' % t if tests else '')
        p = subprocess.run(['unshare', '-m', 'bash', '-c', sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        if tests:
            r = json.load(open(t + '/test.json'))
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = sorted(base - set(r['passed']))
            out += 'tests: %s\n' % ('all pass' if not miss else 'BROKEN ' + ' '.join(miss[:6]))
        print('== %s (%s)\n%s' % (id, prop, out), flush=True)
        if keep:
            for x in os.listdir(t):
                if x.endswith('.log'):
                    shutil.copy(os.path.join(t, x), '/tmp/seedlog-%s-%s' % (id, x))
    finally:
        subprocess.run(['rm', '-rf', t])


if __name__ == '__main__':
    a = sys.argv[2:]
    checks, tests, keep, ids = 'own', True, False, []
    while a:
        x = a.pop(0)
        if x == '--checks':
            checks = a.pop(0)
        elif x == '--notest':
            tests = False
        elif x == '--keep':
            keep = True
        else:
            ids.append(x)
    for i in ids or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        test(i, checks, tests, keep)
