"""Nothing has to be built: check that everything the checks need is there."""

import sys

sys.dont_write_bytecode = True

from symx import engine  # noqa: E402

s = engine.z3.Solver()
x = engine.z3.Int("x")
s.add(x > 1, x < 3)
assert s.check() == engine.z3.sat
import registry  # noqa: E402

print("z3", engine.z3.get_version_string(), "checks:", len(registry.MODULES))
