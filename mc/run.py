#!/opt/venv/bin/python
"""run.py PROPERTY [quick|thorough]        decide one property
   run.py PROPERTY --replay FILE           re-run one recorded violation
"""
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
import common  # noqa: E402


def load_known(prop):
    path = os.path.join(common.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))
            if k['property'] == prop and k['status'] == 'known']


def matches(entry, violation):
    """A finding names the exact case: every key of `case` must agree."""
    return all(violation.get(k) == v for k, v in entry['case'].items())


def main():
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return mod.replay(sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    common.drop_stale_bytecode()
    res = common.Result()
    try:
        mod.check(tier, res)
    except common.CheckError as e:
        print('ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = load_known(prop)
    fresh, seen = [], []
    for v in res.violations:
        k = [e for e in known if matches(e, v)]
        if k:
            seen.append(k[0])
        else:
            fresh.append(v)
    for e in known:
        if e in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    cov = {'samples': res.samples[:6], 'exhaustive': bool(res.exhaustive)}
    cov.update(res.extra)
    level = getattr(mod, 'LEVEL', 'model_checking')
    if level == 'model_checking':
        cov['states'] = len(res.states) + res.n_states
        cov['transitions'] = res.transitions
        cov['traces_validated_against_impl'] = res.traces
    else:
        cov['evaluations'] = res.evaluations
        cov['distinct_nontrivial'] = res.distinct
        cov['rule'] = mod.RULE
    cov['bounds'] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) \
        else mod.BOUNDS
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(common.VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(common.VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)
    if fresh:
        rdir = os.path.join(common.VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            rp = os.path.join(rdir, '%s-%d.json' % (prop, i))
            with open(rp, 'w') as f:
                json.dump(v, f, indent=1, sort_keys=True)
            print('  %s: %s' % (v.get('job', ''), v['what'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('HOLDS property=%s tier=%s %s wall=%.1fs' % (
        prop, tier, ' '.join('%s=%s' % (k, cov[k]) for k in (
            'states', 'transitions', 'traces_validated_against_impl',
            'evaluations', 'distinct_nontrivial') if k in cov),
        time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
