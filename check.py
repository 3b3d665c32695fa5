#!/usr/bin/env python3
"""./check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--only TAG:CASE]

Decides one property by running the real code, rebuilt from /repo's working
tree, under the monitors of this directory. See DESIGN.md."""
import argparse, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import build, runner, props

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    try:
        spec = props.PROPS[a.prop]
        if spec.get('custom'):
            return spec['custom'](a, t0)
        jobs = props.make_jobs(spec, a.tier, a.scale)
        if a.only:
            tag, case = a.only.rsplit(':', 1)
            return props.replay([j for j in jobs if j.tag == tag][0], int(case), a)
        print('%s: build %.1f s' % (a.prop, time.time() - t0), flush=True)
        res = runner.run_jobs(jobs, a.seed, a.tier, spec.get('budget', 500 if a.tier == 'quick' else 7200))
        if spec.get('keys'):       # other monitors ride along: what they find is for the properties they decide
            import re
            res.violations = [v for v in res.violations if re.match(spec['keys'], v['key'])]
        return runner.finish(a.prop, a.tier, a.seed, spec['level'], spec['rule'], res, t0,
                             assumptions=spec.get('assumptions'), extra=spec.get('extra', lambda r: None)(res))
    except build.BuildError as e:
        print('BUILD ERROR\n%s' % e)
        return 3
    except runner.HarnessError as e:
        print('HARNESS ERROR\n%s' % e)
        return 3

if __name__ == '__main__':
    sys.exit(main())
