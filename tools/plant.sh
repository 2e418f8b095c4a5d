#!/bin/bash
# plant.sh fresh          make/reset the scratch copy /tmp/plant/repo at /repo's HEAD
# plant.sh ID             take the scratch copy's edits as seeded/ID/patch.diff (when there are any) and confirm
#                         that it applies, builds, passes the stable tests and that demo.sh tells the two apart
S=/tmp/plant/repo
if [ "$1" = fresh ]; then
    mkdir -p /tmp/plant
    if [ -d $S ]; then git -C $S checkout -q -- . && git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD; else git clone -q /repo $S; cp -a /repo/.git/info/exclude $S/.git/info/ 2>/dev/null; fi
    for f in build test; do sed "s#/repo#$S#g; s#/opt/vp/build.sh#/tmp/plant/build.sh#g" /opt/vp/$f.sh >/tmp/plant/$f.sh; done
    exit 0
fi
id=$1; d=/verif/seeded/$id; cd $S || exit 1
if ! git diff --quiet; then git diff >$d/patch.diff; else git apply $d/patch.diff || { echo "NO APPLY"; exit 1; }; fi
rm -rf /tmp/plant/demo; mkdir -p /tmp/plant/demo; cp $d/* /tmp/plant/demo/; rm -f /tmp/plant/demo/{meta.json,patch.diff}
bash /tmp/plant/build.sh >/tmp/plant/b.log 2>&1 || { tail -5 /tmp/plant/b.log; echo "NO BUILD"; git checkout -q -- .; exit 1; }
bash /tmp/plant/test.sh /tmp/plant/t.json >/tmp/plant/t.log 2>&1
m=$(python3 - <<'P'
import json
t=json.load(open('/tmp/plant/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
want=b if isinstance(b,list) else (b.get('passed') or b.get('tests') or b.get('stable'))
print([x for x in want if x not in t['passed']])
P
)
timeout 300 bash /tmp/plant/demo/demo.sh >/tmp/plant/d1.log 2>&1; r1=$?
git checkout -q -- .
bash /tmp/plant/build.sh >/tmp/plant/b.log 2>&1
timeout 300 bash /tmp/plant/demo/demo.sh >/tmp/plant/d0.log 2>&1; r0=$?
o=ok
# lines of the original repository must be touched
base=$(git rev-list --max-parents=0 HEAD | tail -1)
orig=$(git log --format=%H --grep '^fix:' --invert-grep -1)
git apply --numstat $d/patch.diff | while read a b f; do git cat-file -e $orig:$f 2>/dev/null || echo "file $f not original"; done
git diff --quiet || echo dirty
n=0; tot=0
python3 - "$d/patch.diff" "$orig" <<'P'
import sys,re,subprocess
f=None; n=t=0
for l in open(sys.argv[1],errors='replace'):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m[1].strip(); orig=set(subprocess.run(['git','show',sys.argv[2]+':'+f],capture_output=True,text=True).stdout.split('\n')); continue
    if l.startswith('-') and not l.startswith('---'):
        t+=1; n+= l[1:].rstrip('\n') in orig
print('removed lines',t,'original',n)
P
echo "$id missing=$m demo patched=$r1 clean=$r0 $([ "$m" = "[]" ] && [ $r1 != 0 ] && [ $r0 = 0 ] && echo CONFIRMED || echo BAD)"
tail -2 /tmp/plant/d1.log; [ $r0 = 0 ] || tail -5 /tmp/plant/d0.log
