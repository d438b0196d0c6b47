#!/usr/bin/env python3
# t.py h_x.cc groups [-t secs] [--opt ...] entry...
import sys,subprocess,json,os,glob
sys.path.insert(0,'/verif')
import run as R
os.chdir('/verif')
f,g=sys.argv[1:3]; ents=[];opts=[];t='60'
a=sys.argv[3:]
i=0
while i<len(a):
    if a[i]=='-t': t=a[i+1]; i+=2; continue
    (opts if a[i].startswith('--') else ents).append(a[i]); i+=1
p=subprocess.run(['python3','lib/build.py','ir',f,g],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
mod=p.stdout.strip().split('\n')[-1]
if p.returncode or not mod.endswith('.bc'): print(p.stdout[-5000:]); sys.exit(1)
if not ents:
    import re
    ents=re.findall(r'^HARNESS\((\w+)\)',open('harness/'+f).read(),re.M)
for e in ents:
    r=subprocess.run(['build/engine/jppsym','--module='+mod,'--entry=harness_'+e,'--out=/tmp/o.json','--replay-dir=/tmp/rp','--prefix='+e,'--max-time='+t]+opts,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
    if r.stdout.strip(): print(r.stdout[-int(os.environ.get("T_OUT","1500")):])
    try: d=json.load(open('/tmp/o.json'))
    except Exception as x: print(e,'NO REPORT',x,r.returncode); continue
    if 'workers' in d:
        fs=sorted(glob.glob('/tmp/o.json.w*')); d=R.merge_reports([json.load(open(f)) for f in fs]); [os.remove(f) for f in fs]
    os.remove('/tmp/o.json')
    if 'paths' not in d: print(e,d); continue
    print('%-22s paths=%d done=%d pend=%d budget=%d unsup=%d exc=%d unk=%d reach=%s wall=%.1f solver=%.1f z3=%d chk=%d/%d'%(e,d['paths'],d['completed'],d['pending'],d['budget'],d['unsupported'],d['exceptions'],d['unknown'],d['reach'],d['wall_s'],d['solver_s'],d['z3_calls'],d['checks_solver'],d['checks']))
    for k,v in list(d['notes'].items())[:6]: print('   note',v,k[:300])
    for v in d['violations'][:4]:
        print('   VIOL',v['kind'],v['msg'],v['where']); print('     ',v['inputs'][:300]); print('\n'.join('        '+x for x in v['stack'].split('\n')[:7]))
