"""Makes and confirms the planted bugs in /verif/seeded (not used by any check).

    python3 tools_seed.py FILE.py [ID ...]

FILE.py defines SEEDS: id -> dict(property, needs, what_it_breaks,
edits=[(file, old, new)], demo=python source). For each of them the patch, demo and
meta data are written, after which (with the patch applied to /repo, which is undone
afterwards) it is confirmed that: the patch only touches lines of the original
repository, the demo fails with and passes without the patch, the project builds, the
stable tests pass, and it is reported whether the check of the property catches it.
"""
import json
import pathlib
import re
import runpy
import subprocess
import sys
import time

REPO = pathlib.Path("/repo")
BASE = "6b6cc3d"
OUT = pathlib.Path(__file__).parent / "seeded"
DEMO_SH = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(
        cmd, shell=True, cwd=REPO, capture_output=True, text=True, **kw
    )


def removed_lines_are_original(diff):
    """Are there removed lines that stem from the original repository"""
    file = None
    original = []
    line = 0
    for row in diff.splitlines():
        if row.startswith("--- a/"):
            file = row[6:]
        elif row.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", row)[1])
        elif row.startswith("-") and not row.startswith("---"):
            blame = sh(f"git blame -s -L{line},{line} {BASE}..HEAD -- {file}").stdout
            original.append((blame.startswith("^"), row))
            line += 1
        elif row.startswith(" "):
            line += 1
    return original


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:] or list(spec)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if False else None
    for sid in ids:
        seed = spec[sid]
        print(f"== {sid} ({seed['property']})", flush=True)
        assert not sh("git status --porcelain").stdout.strip(), "repo is not clean"
        out = OUT / sid
        out.mkdir(parents=True, exist_ok=True)
        (out / "demo.py").write_text(seed["demo"].lstrip("\n"))
        (out / "demo.sh").write_text(DEMO_SH)
        (out / "demo.sh").chmod(0o755)
        meta = {k: " ".join(seed[k].split()) for k in ("property", "needs", "what_it_breaks")}
        (out / "meta.json").write_text(json.dumps(meta, indent=2) + "\n")
        try:
            for file, old, new in seed["edits"]:
                path = REPO / file
                text = path.read_text()
                assert text.count(old) == 1, (sid, file, text.count(old), old)
                path.write_text(text.replace(old, new))
            diff = sh("git diff").stdout
            (out / "patch.diff").write_text(diff)
            orig = removed_lines_are_original(diff)
            notorig = [r for o, r in orig if not o]
            if notorig or not orig:
                print("   lines not original:", notorig, "| original:", sum(o for o, _ in orig))
            res = sh(f"bash {out}/demo.sh")
            print("   demo patched rc", res.returncode, (res.stderr.strip().splitlines() or [""])[-1][:150])
            b = sh("bash /opt/vp/build.sh").returncode
            t = sh("bash /opt/vp/test.sh /tmp/seed.json")
            print("   build", b, "tests", t.stdout.strip().splitlines()[-3:][:1], 
                  [l for l in t.stdout.splitlines() if " passed" in l or " failed" in l][-1:])
            ok_patched = res.returncode != 0
            start = time.time()
            c = subprocess.run(
                ["/opt/venv/bin/python", "check.py", seed["property"]],
                cwd=OUT.parent, capture_output=True, text=True,
            )
            rows = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            print(f"   check rc {c.returncode} {time.time() - start:.0f}s", rows[:1], c.stderr[-300:] if c.returncode not in (0, 1) else "")
        finally:
            sh("git checkout -- .")
        res = sh(f"bash {out}/demo.sh")
        print("   demo clean rc", res.returncode, res.stderr[-300:])
        print("   =>", "OK" if res.returncode == 0 and ok_patched and b == 0 and not re.search(r"[1-9]\d* failed", t.stdout) else "NOT OK",
              "CAUGHT" if c.returncode == 1 and rows else "MISSED", flush=True)


main()
