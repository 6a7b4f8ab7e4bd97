#!/bin/bash
# tools/trybug.sh ID [PROPERTY...]: builds /repo with a planted bug, tests, demonstrates, checks, undoes.
cd /verif
b=seeded/$1
p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply /verif/$b/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$FAST" ]; then
bash /opt/vp/build.sh > /tmp/w/bug.log 2>&1 || { echo "$1: does not build"; tail -5 /tmp/w/bug.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/bug.json 2>&1 | tail -1
(cd /repo && bash /verif/$b/demo.sh > /tmp/w/demo.log 2>&1; echo "demo with the bug: $? $(tail -1 /tmp/w/demo.log | cut -c1-150)")
fi
AX_CACHE=1 python3 -m ax.check $p ${@:2} 2>&1 | grep -v "^   " | cut -c1-260
