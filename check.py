#!/usr/bin/env python3
"""check.py <property id>: decides one property from the current sources of /repo."""
import importlib
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "props"), HERE]
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def main(pid, tier):
    import judge
    import registry
    import dump
    modname, fname, level, note = registry.CHECKS[pid]
    try:
        mod = importlib.import_module(modname)
        run = judge.Run(pid, tier)
        getattr(mod, fname)(run)
        return judge.finish(run, level, note)
    except judge.AnchorLost as e:
        print("ERROR: %s: anchor not found: %s" % (pid, e))
        return 3
    except dump.AnalysisError as e:
        print("ERROR: %s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    res = []
    t = threading.Thread(target=lambda: res.append(main(pid, tier)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 5)
