"""Table of planted bugs for DESIGN.md, between the markers."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
MISSED = {}
rows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    short = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")[:150]
    rows.append(f"| {d.name} | {m['property']} | {short(m['what_it_breaks'])} | {short(m['needs'])} | {MISSED.get(d.name, m['property'] + ' quick')} |")
f = V / "DESIGN.md"
s = f.read_text()
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", table)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: table, s, flags=re.S)
f.write_text(s)
