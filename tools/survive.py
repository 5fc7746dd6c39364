"""survive.py: which candidate bugs survive the stable tests?  stdin: JSON {id: [[file, old, new], ...]} (development aid; works in a scratch copy)"""
import json, os, shutil, subprocess, sys
W = os.environ.get("WT", "/tmp/wt")
if not os.path.isdir(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
def sh(text):
    e = dict(os.environ, PYTHONPATH=f"{W}/src:{W}")
    return subprocess.run(["bash", "-c", text], env=e, capture_output=True, text=True)
for n in ("build", "test"):
    t = open(f"/opt/vp/{n}.sh").read().replace("/repo", W).replace("PYTHONPATH=" + W, f"PYTHONPATH={W}/src:{W}").replace("/opt/vp/build.sh", f"{W}.build.sh")
    open(f"{W}.{n}.sh", "w").write(t)
d = json.load(sys.stdin)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for k, edits in d.items():
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
    if isinstance(edits, dict):
        edits = edits["edits"]
    bad = False
    for f, old, new in edits:
        p = f"{W}/src/glum/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(k, "NOT APPLICABLE", s.count(old), old[:60]); bad = True; break
        open(p, "w").write(s.replace(old, new))
    if bad:
        continue
    r = sh(f"bash {W}.test.sh {W}.json")
    try:
        ok = set(json.load(open(f"{W}.json"))["passed"])
    except Exception:
        print(k, "NO RESULT", r.stderr[-300:]); continue
    m = sorted(base - ok)
    print(k, "SURVIVES" if not m else f"caught by {len(m)}: {m[:2]}", flush=True)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
