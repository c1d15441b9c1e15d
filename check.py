"""python3 check.py P03 [--tier quick|thorough]   decide one property on /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != os.environ.get("PYAN_SEED", "0"):      # sets are walked in the same order on every run
    os.environ["PYTHONHASHSEED"] = os.environ.get("PYAN_SEED", "0")
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)

from pyan import report  # noqa: E402


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    m = importlib.import_module("checks." + pid.lower())
    return report.main(pid, m.run, m.INFO, tier)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    r = []
    t = threading.Thread(target=lambda: r.append(main(sys.argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(r[0] if r else 3)
