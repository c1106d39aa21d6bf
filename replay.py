"""python replay.py FILE: runs the counterexample in FILE on plain Python values
against the real code. Exits 1 (and prints REPRODUCED) if the property is broken."""

import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONUTF8") != "0":
    # The locale is part of what a harness can choose
    os.environ["PYTHONHASHSEED"] = os.environ["PYTHONUTF8"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from symx import runner  # noqa: E402


def main():
    blob = json.load(open(sys.argv[1]))
    module = importlib.import_module(blob["module"])
    check = module.CHECKS[blob["property"]]
    h = next(h for h in check.harnesses if h.name == blob["harness"])
    print("inputs:", blob["inputs"])
    r = runner.run_concrete(h, blob["params"], blob["inputs"])
    # What happens can depend on the addresses of objects (order within sets)
    junk = []
    for attempt in range(40):
        if r is not None:
            break
        junk += [(lambda: attempt), object(), [attempt] * (attempt % 5)][: attempt % 4]
        r = runner.run_concrete(h, blob["params"], blob["inputs"])
    if r is None or r == "infeasible":
        print("NOT REPRODUCED:", r)
        return 0
    print("REPRODUCED:", " ".join(r.split()))
    return 1


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
