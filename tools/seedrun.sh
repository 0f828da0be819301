#!/bin/bash
# Tries a planted bug in scratch copies of /repo and /verif (bind mounted in a mount namespace of its own):
# seedrun.sh ID [PROPERTY...]   prints what builds, tests, demo and the checks say
id=$1; shift
S=/tmp/seedrun/$id; mkdir -p $S
rm -rf "/tmp/seedrun/$id"; mkdir -p $S
cp -a /repo $S/repo; mkdir $S/verif; cp -a /verif/{check.py,engine,harness,tools,known_findings.txt,run.sh,MANIFEST.json,properties.jsonl} $S/verif/; mkdir $S/verif/build; cp -a /verif/build/{sgsym*,*.stamp,stamp*} $S/verif/build/ 2>/dev/null; [ -n "$(ls $S/verif/build)" ] || cp -a /verif/build $S/verif/
cp -a /verif/seeded/$id $S/seed
props="$@"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$S/seed/meta.json'))['property'])")
unshare -m bash -c "
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo; bash $S/seed/demo.sh > $S/demo0.txt 2>&1; echo demo-unchanged=\$?
git apply $S/seed/patch.diff || { echo NOAPPLY; exit 1; }
bash /opt/vp/test.sh $S/out.json > $S/test.txt 2>&1
python3 -c \"
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$S/out.json'))['passed']);print('tests', 'OK' if b<=p else 'FAIL %s'%sorted(b-p))\"
bash $S/seed/demo.sh > $S/demo1.txt 2>&1; echo demo-changed=\$?
cd /verif
[ -n '$NOCHECK' ] || for p in $props; do s=\$(date +%s); timeout 900 python3 check.py \$p --tier quick > $S/check_\$p.txt 2>&1; echo check \$p exit=\$? \$(( \$(date +%s)-s ))s \$(grep -A1 -m1 VIOLATION $S/check_\$p.txt | tr '\n' ' '); done
" 2>&1 | sed "s/^/$id: /"
rm -rf "/tmp/seedrun/$id/repo" "/tmp/seedrun/$id/verif"
