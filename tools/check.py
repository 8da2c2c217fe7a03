#!/usr/bin/env python3
"""tools/check.py <property> [--replay FILE]: decide one property on the current /repo."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    rc = 2
    try:
        import plans
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            rc = replay(ctx, plans, sys.argv[3])
        else:
            plans.PLANS[pid](ctx)
            if not ctx.violations:
                for p, tag, what in ctx.known:
                    if p == pid and ctx.known_seen.get(tag):
                        print('KNOWN-FINDING: property=%s %s' % (pid, what))
            ctx.evidence()
            rc = 1 if ctx.violations else 0
            c = ctx.cov
            print('%s %s: %d traces, %d events validated; %d states, %d transitions; %.1fs; %s' % (
                pid, ctx.tier, c['traces_validated_against_impl'], c['events_validated'], c['states'],
                c['transitions'], __import__('time').time() - ctx.t0, 'VIOLATED' if rc else 'held'))
    except vlib.Broken as e:
        print('NO ANSWER:', str(e)[-3500:])
        rc = 1 if ctx.violations else 2
        if ctx.violations:
            ctx.evidence()
    except Exception as e:
        # a violation that was reproduced stands, whatever happened to the rest of the run
        traceback.print_exc()
        rc = 1 if ctx.violations else 2
        if ctx.violations:
            ctx.evidence()
    finally:
        if not os.environ.get('VERIF_KEEP'):
            ctx.close()
    sys.stdout.flush()
    sys.exit(rc)


def replay(ctx, plans, path):
    d = json.load(open(path))
    how = d['how']
    if 'runs' in how:
        drv = {x['driver']: plans.driver_for(ctx, x['driver']) for x in how['runs']}
        for _ in range(5):
            if ctx.same_again(how, drv, plans.NORMS.get(ctx.pid)):
                print('the recordings differ')
                print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
                return 1
    else:
        drv = plans.driver_for(ctx, how['driver'])
        tf = ctx.drive(drv, d['scripts'], 'replay', env=how['env'])
        r = ctx.validate_file(how['module'], how['cfg'], tf, how['aspects'], extra=how['extra'])
        if r[0] is not None:
            print('rejected at event', open(tf).read().splitlines()[r[0]][:500])
            print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
            return 1
    print('accepted')
    return 0


main()
