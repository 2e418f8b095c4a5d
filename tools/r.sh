#!/bin/bash
# r.sh CHECK SEED COUNT [extra]: quick look at what a check finds
SIM=$(cd /verif; python3 check.py --build $1) || { echo "$SIM"; exit 1; }
pids=""
for i in 0 1 2 3 4 5 6 7; do $SIM run --check $1 --seed ${2:-1} --start $i --stride 8 --count ${3:-400} --maxviol ${MAXV:-20} --out /tmp/o$i.json ${MIN:---nomin 1} & done; wait
python3 - <<'P'
import json,collections
ds=[json.load(open(f'/tmp/o{i}.json')) for i in range(8)]
for k in('total','ok','discarded','steps','edges','switches'): print(k,sum(d[k] for d in ds),end=' ')
print('maxedges %.2e'%max(d['max_edges'] for d in ds),'wall %.1f'%max(d['wall'] for d in ds),[d['harness_error'] for d in ds if d['harness_error']])
dis=collections.Counter()
for d in ds: dis.update(d['discards'])
if dis: print('discards',dict(dis))
c=collections.Counter()
for d in ds: c.update(d['counters'])
print('counters',dict(sorted(c.items())))
print('sigs',len(set(sum((d['sigs'] for d in ds),[]))))
seen={}
for d in ds:
    for v in d['violations']: seen.setdefault(v['class'],[]).append(v)
for k,vs in sorted(seen.items()):
    v=min(vs,key=lambda v:len(v['choices']))
    print('==',k,len(vs),'run',v['run'],'len',v['orig_len'],len(v['choices'])); print(v['detail'][:600])
P
