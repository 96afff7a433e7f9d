"""Generates properties.jsonl and MANIFEST.json from tools/props.py."""
import json
from pathlib import Path
import props

V = Path(__file__).resolve().parent.parent
lines, checks, na = [], [], []
for p in props.PROPS:
    rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    lines.append(json.dumps(rec))
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": p.get("level", "model_checking"),
            "level_note": p["level_note"],
            "evidence_file": f"evidence/{p['id']}.json",
        }
    )
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
man = {"version": 1, "setup_cmd": props.SETUP, "checks": checks, "not_applicable": na, "notes": props.NOTES}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(lines), "properties", len(checks), "checks", len(na), "n/a")
