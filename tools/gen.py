"""Write properties.jsonl and MANIFEST.json from properties_data.py"""

import json
from pathlib import Path

from properties_data import PROPERTIES, HOOKS, NOTES

root = Path(__file__).resolve().parent.parent
lines = []
checks = []
na = []
for prop in PROPERTIES:
    lines.append(
        json.dumps(
            {
                "id": prop["id"],
                "title": prop["title"],
                "statement": prop["statement"],
                "quantifier": {"over": prop["over"], "text": prop["quantifier"]},
                "why_tests_cant": prop["why"],
                "anchors": {
                    "files": prop["files"],
                    "mechanism": [
                        {"name": name, "where": where}
                        for name, where in prop["mechanism"]
                    ],
                    "observe_at": prop["observe_at"],
                    "hook_needed": None,
                },
            }
        )
    )
    if "check" in prop:
        cmd = f"python3 harness/{prop['check']}"
        checks.append(
            {
                "property": prop["id"],
                "quick_cmd": cmd,
                "thorough_cmd": cmd,
                "evidence_file": f"evidence/{prop['id']}.json",
                "technique": prop["technique"],
                "level": prop.get("level", "model_checking"),
                "level_note": prop["level_note"],
            }
        )
    else:
        na.append({"property": prop["id"], "reason": prop["na"]})
(root / "properties.jsonl").write_text("\n".join(lines) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "python3 harness/setup_check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": NOTES,
}
if HOOKS:
    manifest["hooks"] = HOOKS
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(lines), "properties,", len(checks), "checks")
