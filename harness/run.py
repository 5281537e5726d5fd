"""python run.py <property>: run one check."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import MachineryError, Check, REPO


def main():
    prop = sys.argv[1]
    mods = ["circuit_checks", "parse_checks", "fault_checks", "decode_checks", "show_checks", "bench_checks"]
    try:
        import importlib
        fn = None
        for m in mods:
            if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
                continue
            fn = importlib.import_module(m).CHECKS.get(prop)
            if fn:
                break
        if fn is None:
            print("no check for", prop)
            return 2
        return fn().finish()
    except MachineryError as e:
        print("MACHINERY: %s" % e)
        return 2
    except Exception as e:
        text = traceback.format_exc()
        print(text)
        if 'File "%s/qtcodes' % REPO in text:
            # the code under test failed where no failure is specified
            chk = Check(prop)
            chk.violate("the code failed: %s: %s" % (type(e).__name__, e), dict(traceback=text))
            return chk.finish()
        return 2


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    sys.exit(code)
