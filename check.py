#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property of /repo from its current sources."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rc = [2]

    def go():
        from rsa.report import Report
        try:
            mod = importlib.import_module('rsa.checks.' + pid.lower())
            rep = Report(pid, tier, seed)
            mod.run(rep)
            rc[0] = rep.finish(mod.EXPLANATION, getattr(mod, 'MINIMUM', 1))
        except Exception:
            traceback.print_exc(limit=-12)
            print('ERROR: the analysis of %s could not be completed' % pid)
            rc[0] = 2
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()
