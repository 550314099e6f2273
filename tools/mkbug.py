"""usage: mkbug.py FILE.py [ID...]: writes seeded/<id>/ from BUGS (list of dicts
id, property, edits [(path, old, new)], needs, breaks, demo (text of demo.py))"""
import json, runpy, shutil, subprocess, sys
from pathlib import Path
SEEDED = Path(__file__).parent.parent / "seeded"
bugs = runpy.run_path(sys.argv[1])["BUGS"]
for b in bugs:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    d = SEEDED / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    wt = Path("/tmp/mkbug")
    shutil.rmtree(wt, ignore_errors=True)
    for path, old, new in b["edits"]:
        src = Path("/repo") / path
        for side, root in (("a", wt / "a"), ("b", wt / "b")):
            p = root / path
            if not p.exists():
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(src.read_text())
        p = wt / "b" / path
        s = p.read_text()
        assert s.count(old) == 1, (b["id"], path, s.count(old))
        p.write_text(s.replace(old, new))
    out = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=wt, capture_output=True, text=True).stdout
    assert out
    (d / "patch.diff").write_text(out)
    subprocess.run(["git", "apply", "--check", str(d / "patch.diff")], cwd="/repo", check=True)
    (d / "demo.py").write_text(b["demo"])
    (d / "demo.sh").write_text('#!/bin/bash\n. /opt/vp/env.sh\nexport MPLBACKEND=agg\nexec timeout 200 python "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    shutil.rmtree(wt)
    print(b["id"])
