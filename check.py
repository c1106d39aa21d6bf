"""python check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]"""

import argparse
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONUTF8") != "0":
    # The locale is part of what a harness can choose
    os.environ["PYTHONHASHSEED"] = os.environ["PYTHONUTF8"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--procs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    module = importlib.import_module(registry.MODULES[a.property])
    from symx import runner

    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.run_check(
        module.CHECKS[a.property], a.tier, seed, only=a.only, budget=a.budget,
        procs=a.procs, verbose=a.v,
    )


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
