"""plant.py ID: make seeded/ID/patch.diff from seeded/ID/edit.py-style replacements given on stdin as JSON
   {"property":..,"needs":..,"what_it_breaks":..,"edits":[[file,old,new],...],"demo":"python source"}"""
import json, os, subprocess, sys
d = json.load(sys.stdin)
for id_, b in d.items():
    out = f"/verif/seeded/{id_}"
    os.makedirs(out, exist_ok=True)
    try:
        for f, old, new in b["edits"]:
            p = "/repo/src/glum/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id_, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], capture_output=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(b["demo"])
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
    print(id_, len(diff))
