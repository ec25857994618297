#!/usr/bin/env python3-vt
"""Run the static checks of one property:  check.py C07 [--thorough]"""
import importlib
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    from sa.rules.base import Check, finish
    from sa.models import AnchorLost
    pid = args[0]
    mod = importlib.import_module("sa.rules." + pid.lower())
    chk = Check(pid, thorough)
    try:
        mod.run(chk)
        chk.execute()
    except AnchorLost as e:
        chk.results.append(("setup", "anchor", "lost", str(e)))
    return finish(chk, getattr(mod, "MINIMUM", 1))


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def body():
        rc[0] = main()
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
