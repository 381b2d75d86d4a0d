"""python3 run.py <property> : decide one property from /repo's current source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
# set-up makes the analysis deterministic
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def go():
    import core
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks." + pid.lower())
    return core.main(pid, mod, tier)


from aai.harness import run_big  # noqa: E402
code = run_big(go)
sys.stdout.flush()
os._exit(code)
