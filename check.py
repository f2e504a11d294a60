#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--only OBLIGATION]

Static analysis of /repo's current source for one property.
"""
import argparse
import ctypes
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    a = ap.parse_args()
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    runs = []

    def body():
        from sa import core
        mod = importlib.import_module('sa.rules.' + a.prop.lower())
        run = core.Run(a.prop, a.tier, a.only, limit=getattr(mod, 'LIMIT', 600))
        runs.append(run)
        mod.run(run)
        run.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        out.append(core.finish(run, mod.EXPLAIN, int(os.environ.get('VERIF_SEED') or 1)))
    th = threading.Thread(target=body)
    th.start()
    while th.is_alive():
        th.join(0.5)
        d = runs[0].deadline if runs else None
        if d is not None and time.time() > d and th.is_alive():
            from sa import core
            runs[0].deadline = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(core.OutOfTime))
    if not out:
        sys.exit(3)
    sys.stdout.flush()
    sys.exit(out[0])


if __name__ == '__main__':
    main()
