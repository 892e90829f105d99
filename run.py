"""python3-vt run.py <property id>: decide one property on the current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    from sa.check import Check
    mod = importlib.import_module("checks." + pid.lower())
    from sa.project import AnalysisBroken
    try:
        c = Check(pid)
        rc = mod.check(c)
    except AnalysisBroken as e:
        print("analysis broken: %s" % e)
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    os._exit(out[0] if out else 3)
