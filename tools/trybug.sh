#!/bin/bash
# trybug.sh ID...: does the planted bug build, pass the stable tests, and does its demo tell it apart?
for id in "$@"; do
  d=/verif/seeded/$id
  bash $d/demo.sh >/dev/null 2>&1 && a=0 || a=1
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || echo "$id build failed"
  (cd /repo && bash $d/demo.sh >/tmp/tb.demo 2>&1) && b=0 || b=1
  bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
  /opt/venv/bin/python - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
def g(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
    return {k for k,v in x.items() if v in ('passed',True)}
m=sorted(g(b)-g(r))
print("$id demo clean=$a planted=$b; tests failing:",len(m),m[:4])
P
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh >/tmp/tb.log 2>&1
