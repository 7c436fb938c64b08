"""main.py <property>: run one check."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        chk = vlib.Check(prop)
        err = vlib.import_target()
        if err is not None:
            chk.fail({"import": "pyoptmat"}, "import", f"{type(err).__name__}: {err}")
            return chk.finish()
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(chk)
        return chk.finish()
    except vlib.MachineryError as e:
        print("ERROR of the check:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        vlib.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
