#!/usr/bin/env python3
"""cov.py RUNS [CHECK...]: which lines of the library no check executes (union of the checks given)"""
import subprocess,sys,json,re,os
n=sys.argv[1]; ids=sys.argv[2:] or ['C%02d'%i for i in list(range(1,20))+[23]]
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sim=subprocess.run(['python3',V+'/check.py','--build'],capture_output=True,text=True).stdout.split()[-1]
pcs=subprocess.run([sim,'covmap'],capture_output=True,text=True).stdout.split()
tot=[0]*len(pcs)
for c in ids:
    ps=[subprocess.Popen([sim,'run','--check',c,'--seed','7','--start',str(i),'--stride','8','--count',n,'--maxviol','5','--nomin','1','--out',f'/tmp/cov{i}.json'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL) for i in range(8)]
    [p.wait() for p in ps]
    for i in range(8):
        j=json.load(open(f'/tmp/cov{i}.json'))
        for k,b in enumerate(j['cov'][:len(pcs)]): tot[k]+=b=='1'
        os.unlink(f'/tmp/cov{i}.json')
    print(c,sum(1 for x in tot if x),'of',len(pcs),file=sys.stderr)
o=subprocess.run(['llvm-symbolizer-18','--obj='+sim,'--output-style=GNU','--functions=linkage','--no-inlines'],input='\n'.join(pcs),capture_output=True,text=True).stdout.split('\n')
seen={}
for k in range(len(pcs)):
    fn,loc=o[2*k],o[2*k+1]
    f,l=loc.split(':')[:2]; f=os.path.basename(f)
    try: l=int(l)
    except ValueError: continue
    seen.setdefault((f,fn,l),[]).append(tot[k])
fun={}
for (f,fn,l),v in sorted(seen.items()):
    fun.setdefault((f,fn),[]).append((l,max(v)))
for (f,fn),ls in fun.items():
    miss=[l for l,v in ls if not v]
    if miss: print(f,fn,'NEVER' if len(miss)==len(ls) else miss)
