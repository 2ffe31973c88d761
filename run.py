#!/usr/bin/env python3
"""run.py PROPERTY: decide one property for /repo's working tree (VERIF_SEED, VERIF_TIER)."""
import json, os, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
import infra, checks


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    ctx = infra.Ctx(prop, seed, tier)
    rc, viol = 0, 0
    try:
        try:
            checks.CHECKS[prop](ctx)
        except infra.Violation as v:
            d = os.path.join(infra.VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s-%d.json' % (prop, tier, seed))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'what': v.what, 'replay': v.replay}, f, indent=1)
            print(v.what[:3000])
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            rc, viol = 1, 1
        for k in ctx.known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
                           'events_validated': ctx.events, 'models': ctx.models, 'notes': ctx.notes, 'samples': ctx.samples[:4]},
              'assumptions': checks.ASSUMPTIONS.get(prop, []), 'wall_s': round(time.time() - ctx.t0, 1), 'violations': viol}
        d = os.environ.get('VERIF_EVID') or os.path.join(infra.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d states, %d traces (%d events) of the real code validated, %.1f s' %
              (prop, tier, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
    except infra.CheckError as e:
        print('CHECK-ERROR', prop, e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
