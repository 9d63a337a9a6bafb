#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    import facts
    from report import Report
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if pid == "setup":
        facts.tool()
        facts.dump()
        print("fact base ready")
        return 0
    R = None
    try:
        P = facts.program()
        R = Report(pid, "thorough" if tier == "thorough" else "quick")
        try:
            importlib.import_module(pid.lower()).run(P, R)
        except Exception as e:
            # what was found before the analysis gave up stands
            if not R.viol or R.finish(P) != 1:
                raise
            print("  (analysis incomplete: %s)" % e)
            return 1
        return R.finish(P)
    except facts.Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % pid)
        return 2


rc = [2]


def th():
    rc[0] = main()


t = threading.Thread(target=th)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
