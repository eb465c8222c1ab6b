#!/usr/bin/env python3
"""python3 check.py <property>   -- decide one property of /repo's current source; see DESIGN.md"""
import os
import resource
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from checks import REGISTRY
    from sa.report import Check
    chk = Check(prop)
    try:
        REGISTRY[prop](chk)
    except (Exception, MemoryError) as e:     # the analyser could not read this tree: nothing is concluded from that part
        traceback.print_exc()
        chk.skip("analysis stopped", f"{type(e).__name__}: {e}")
    return chk.finish()


if __name__ == "__main__":
    import threading
    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 0)
