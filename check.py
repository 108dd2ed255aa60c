#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property on /repo's current source.

exit 0: holds; 1: violated (VIOLATION line); 2: the analysis could not be carried out."""
import argparse, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/lib'); sys.path.insert(0, HERE + '/checks')
sys.setrecursionlimit(10000)
from common import Ctx, Result, AnalysisBroken


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    pid = a.prop
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(tier); res = Result()
    try:
        mod.run(ctx, res)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e), file=sys.stderr)
        if not res.viol:
            return 2
    except Exception:
        traceback.print_exc()
        if not res.viol:
            return 2
    known = json.load(open(HERE + '/known_findings.json'))
    kf = {k['key']: k for k in known['findings'] if k['property'] == pid}
    viol = []; seen = set()
    for v in res.viol:
        if v['key'] in kf:
            if v['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[v['key']]['what']))
                seen.add(v['key'])
        else:
            viol.append(v)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    cov = dict(res.cov)
    cov['explanation'] = mod.EXPLANATION
    cov['rule'] = mod.RULE
    cov['samples'] = res.samples or ['see counts']
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other', 'coverage': cov,
          'assumptions': res.assume, 'violations': len(viol), 'wall_s': round(time.time() - t0, 2)}
    with open('%s/evidence/%s.json' % (HERE, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        rp = '%s/evidence/%s.violations.json' % (HERE, pid)
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1)
        for v in viol:
            print('%s: [%s] %s  {%s}' % (v['where'], v['rule'], v['text'], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %s' % (pid, ' '.join('%s=%s' % (k, v) for k, v in res.cov.items() if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main())
