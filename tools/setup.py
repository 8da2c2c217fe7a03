#!/usr/bin/env python3
"""setup_cmd: compile the Java overrides of the function library, and check that the TLA+
definitions and the overrides compute the same values (and that the defining properties of
the frozen constants hold)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def values(out):
    return [l for l in out.splitlines() if l.startswith(('<<', '"')) or re.match(r'^[ <]', l)]


def main():
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, 'setup-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        ov = overrides()
        t = Tlc(d)
        jobs = []
        # the curve-level definitions are compared on top of the overrides of the lower ones
        for m, base in (('LibSelfTest', {}), ('CurveSelfTest', dict(ov=ov, classes='nv.Ov'))):
            f = os.path.join(SPEC, 'lib', m + '.tla')
            jobs.append(lambda m=m, f=f, base=base: (m, t.run(f, f[:-4] + '.cfg', xmx='4g', timeout=1500, **base),
                                          t.run(f, f[:-4] + '.cfg', ov=ov, xmx='4g', timeout=600)))
        bad = 0
        for m, (r1, o1), (r2, o2) in parallel(jobs):
            a, b = values(o1), values(o2)
            ok = r1 == 0 and r2 == 0 and a == b and len(a) > 3
            print(m, 'definitions and overrides agree on %d lines' % len(a) if ok else 'FAILED')
            if not ok:
                bad = 1
                print(tail(o1, 1500)); print(tail(o2, 1500))
        sys.exit(bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
