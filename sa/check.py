"""entry point: check.py C01 [C02 ...] | ALL   (exit 0: held, 1: VIOLATION lines printed)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading


def main():
    import rules
    ids = [a for a in sys.argv[1:] if a.startswith("C") and a[1:].isdigit()]
    if "ALL" in sys.argv[1:]:
        ids = sorted(rules.CHECKS)
    rc = 0
    for i in ids:
        rc |= rules.run(i)
    return rc


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":        # the same order of all sets in every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def go():
        try:
            res.append(main())
        except SystemExit as e:
            res.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            res.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
