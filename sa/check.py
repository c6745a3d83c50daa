"""python3 check.py PROPERTY [quick|thorough]"""
import importlib
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common

import registry

BUDGET = 780


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    mod, fn, level = registry.CHECKS[prop]
    rep = common.Report(prop, tier)
    import eng

    def late(*_):
        raise eng.Give('time: no answer within %d s' % BUDGET)
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, BUDGET, 10)
    try:
        m = importlib.import_module('checks.' + mod)
        prog = common.dump()
        getattr(m, fn)(prog, rep, tier)
    except eng.Anchor as a:
        rep.fail('anchor:%s' % a, 'the construct this rule is about no longer exists (%s); the property '
                 'cannot be shown' % a)
    except eng.Give as g:
        rep.fail('gave-up:%s' % g, 'the analysis could not establish the property (%s)' % g)
    except common.Broken as b:
        print(b)
        rep.fail('build', 'the current tree cannot be analysed: %s' % str(b)[:300])
    except Exception as ex:
        traceback.print_exc()
        rep.fail('internal:%s' % type(ex).__name__, 'the analysis failed: %r' % ex)
    signal.setitimer(signal.ITIMER_REAL, 0)
    return common.finish(rep, t0, level)


if __name__ == '__main__':
    sys.exit(main())
