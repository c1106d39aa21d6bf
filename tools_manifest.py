"""Regenerates MANIFEST.json (python tools_manifest.py)"""

import json
import os

import registry

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

NOTE = (
    "Every path of the real code within the stated bounds is executed on symbolic "
    "values, z3 decides each branch and each assertion; counterexamples are replayed "
    "on plain values in a fresh process. Nothing is claimed outside of the bounds in "
    "the evidence. Trusted: CPython, z3, observ (executed for real), the engine in "
    "symx/ and the stubs listed in the evidence."
)

manifest = dict(
    version=1,
    setup_cmd=f"{PY} setup_check.py",
    hooks=dict(guard="none", enable="no hooks are needed: the checks import /repo as it is",
               source_commits=[]),
    checks=[
        dict(
            property=p,
            quick_cmd=f"{PY} check.py {p} --tier quick",
            thorough_cmd=f"{PY} check.py {p} --tier thorough",
            evidence_file=f"evidence/{p}.json",
            technique="bounded symbolic execution of the real code, decided by z3",
            level="model_checking",
            level_note=registry.NOTES.get(p, "") + (" " if p in registry.NOTES else "") + NOTE,
        )
        for p in registry.MODULES
    ],
    not_applicable=[dict(property=p, reason=r) for p, r in registry.NOT_APPLICABLE.items()],
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
