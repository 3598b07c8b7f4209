#!/usr/bin/env python3
"""python3 check.py ID [--tier quick|thorough] [-v]   decide property ID from the source of /repo (or $GALGEBRA_TREE)"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    from sa.prog import Program, AnalysisBroken
    from sa.gamodel import World
    from sa.report import Check
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        prog = Program()
        ck = Check(pid, tier, seed, prog)
        STATE['ck'], STATE['limit'] = ck, 780 if tier == 'quick' else 6000
        W = World(prog)
        mod = importlib.import_module('rules.' + pid.lower())
        try:
            r = mod.run(ck, W)
        except AnalysisBroken:
            raise
        except Exception as e:
            # what was decided before the analyser gave up stands; the rest is undecided, never an alarm
            if os.environ.get('SA_DEBUG'):
                raise
            traceback.print_exc(limit=-3, file=sys.stdout)
            ck.undecided('analysis', 'remaining obligations', '%s: %s' % (type(e).__name__, e))
            r = ck.finish('The analysis was cut short by a construct it does not model; the obligations decided before are reported.', min_decided=0)
        if '-v' in sys.argv:
            for o in ck.obs:
                print('   ', o)
        if '-u' in sys.argv:
            for o in ck.obs:
                if o[2] == 'undecided':
                    print('   ', o)
        return r
    except AnalysisBroken as e:
        print('%s: ANALYSIS-BROKEN: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3


STATE = {}


if __name__ == '__main__':
    import time
    t0 = time.time()
    res = []
    t = threading.Thread(target=lambda: res.append(main()), daemon=True)
    t.start()
    while t.is_alive():
        t.join(1)
        if t.is_alive() and 'ck' in STATE and time.time() - t0 > STATE['limit']:
            ck = STATE['ck']
            ck.undecided('analysis', 'remaining obligations', 'time limit')
            res.append(ck.finish('The analysis reached its time limit; the obligations decided before are reported.', min_decided=0))
            break
    sys.stdout.flush()
    os._exit(res[0] if res else 3)
