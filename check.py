#!/usr/bin/env python3
"""check.py <property> [tier]: decide one property for /repo's current source."""
import os
import sys
import importlib
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('FA_REPO', '/repo')
    import threading
    from fa import registry
    from fa.report import finish
    rc = [3]

    def go():
        try:
            rep = registry.run(prop, repo, tier, seed)
            rc[0] = finish(rep, tier, seed)
        except Exception:
            traceback.print_exc()
            rc[0] = 3
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])


main()
