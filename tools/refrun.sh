#!/bin/bash
# Runs the checks against a refactoring of /repo that changes no behaviour (bind mounted in a mount namespace of its own):
# refrun.sh NAME DIFF [PROPERTY...]   every check must exit 0
id=$1; diff=$2; shift 2
S=/tmp/refrun/$id
rm -rf "/tmp/refrun/$id"; mkdir -p $S
cp -a /repo $S/repo; mkdir $S/verif; cp -a /verif/{check.py,engine,harness,tools,known_findings.txt,run.sh,MANIFEST.json,properties.jsonl} $S/verif/; mkdir $S/verif/build; cp -a /verif/build/{sgsym*,*.stamp,stamp*} $S/verif/build/ 2>/dev/null
cp $diff $S/diff
props="$@"; [ -n "$props" ] || props=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
unshare -m bash -c "
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo; git apply $S/diff || { echo NOAPPLY; exit 1; }
[ -n '$NOTEST' ] || { bash /opt/vp/build.sh > $S/build.txt 2>&1; bash /opt/vp/test.sh $S/out.json > $S/test.txt 2>&1
python3 -c \"
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$S/out.json'))['passed']);print('tests', 'OK' if b<=p else 'FAIL %s'%sorted(b-p))\"; }
cd /verif
for p in $props; do s=\$(date +%s); timeout 900 python3 check.py \$p --tier quick > $S/check_\$p.txt 2>&1; echo check \$p exit=\$? \$(( \$(date +%s)-s ))s \$(grep -A1 -m1 VIOLATION $S/check_\$p.txt | tr '\n' ' '); mkdir -p $S/ev; cp evidence/\$p.json $S/ev/ 2>/dev/null; done
" 2>&1 | sed -u "s/^/$id: /"
rm -rf "/tmp/refrun/$id/repo" "/tmp/refrun/$id/verif"
