"""check.py PROPERTY: decides one property on /repo's current source. Exit 0 held, 1 violated, 2 the analysis cannot answer."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, report
from registry import CHECKS


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    res = report.Result()
    try:
        for m in c['rules']:
            mod, _, fn = m.partition(':')
            getattr(importlib.import_module('rules.' + mod), fn or 'check')(res, tier)
        return report.finish(prop, tier, seed, c.get('level', 'other'), c['explanation'], res, t0)
    except build.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % prop)
        return 2


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
