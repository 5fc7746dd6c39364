#!/bin/bash
# mutate.sh PROPERTY FILE SED-EXPRESSION [DV_ONLY]: symbolic verdict on a scratch copy of the sources with one edit (development aid)
d=$(mktemp -d); cp -r /repo/src $d/src; ln -s /repo/build $d/build
sed -i "$3" $d/src/glum/$2; diff -q /repo/src/glum/$2 $d/src/glum/$2 >/dev/null && echo "NO CHANGE"
cd /verif && GLUM_REPO=$d DV_ONLY="$4" DV_DEBUG=1 timeout 900 /opt/venv/bin/python -m dv.run $1 quick 2>&1 | grep -v Traceback | tail -${5:-6} | cut -c1-400
rm -r "$d"
