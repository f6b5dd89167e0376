#!/bin/bash
# try_seed.sh ID [CHECK...]: confirm a planted change (applies to /repo's HEAD, builds, passes the
# stable tests, its demo tells the two trees apart) and run the checks against it.
id=$1; shift; d=/verif/seeded/$id; cd /repo || exit 9
[ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 9; }
checks=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
git apply --check "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
# every removed line is of the original repository
base=$(git rev-list --max-parents=0 HEAD)
python3 - "$d/patch.diff" $base <<'P'
import sys,subprocess
f=None;base={};bad=0;n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); base=set(subprocess.run(['git','show',sys.argv[2]+':'+f],capture_output=True,text=True).stdout.splitlines())
    elif l.startswith('-') and not l.startswith('---'):
        n+=1
        if l[1:].rstrip('\n') not in base: bad+=1; print('  not an original line:',l.rstrip())
print(f'  original lines removed: {n-bad} of {n}')
P
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || { echo "$id: build fails on HEAD"; exit 1; }
timeout 300 bash "$d/demo.sh" >/tmp/ts.demo0 2>&1; a=$?
git apply "$d/patch.diff" || exit 1
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || { echo "$id: does not build"; tail -5 /tmp/ts.build; exit 1; }
bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
print(r if isinstance(r,list) else {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
P
)
timeout 300 bash "$d/demo.sh" >/tmp/ts.demo1 2>&1; b=$?
echo "$id: tests $t; demo unchanged=$a patched=$b $( [ $a = 0 -a $b != 0 ] && echo OK || echo BAD-DEMO )"; tail -2 /tmp/ts.demo1
note() { f=/verif/tools/caught.txt; touch $f; sed -i "/^$1 $2 /d" $f; echo "$1 $2 $3" >>$f; sort -o $f $f; }
for c in $checks; do s=$(date +%s); o=$(/verif/check $c ${TIER:-quick} 2>&1); rc=$?; echo "$id: $c rc=$rc $(( $(date +%s) - s ))s $(grep -c "^VIOLATION property=$c" <<<"$o") $(grep -m1 FAIL <<<"$o"|cut -c1-200)"; case $rc in 1) note $id $c caught;; 0) note $id $c missed;; esac; done
