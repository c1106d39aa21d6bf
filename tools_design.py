"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import pathlib
import re

here = pathlib.Path(__file__).parent
rows = []
for f in glob.glob(str(here / "seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append((d["property"], f"| {d['property']} | {f.split('/')[-2]} | {d['needs'].replace('|', '/')} |"))
table = "| property | seeded/ | needs |\n|---|---|---|\n" + "\n".join(r for _, r in sorted(rows))
design = here / "DESIGN.md"
s = design.read_text()
design.write_text(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: f"<!-- seeds -->\n{table}\n<!-- /seeds -->", s, flags=re.S))
