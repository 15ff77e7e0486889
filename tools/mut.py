"""usage: mut.py MUTFILE [name...]; MUTFILE python defining M=[(name, harness, [props], file, old, new), ...]"""
import sys,os,subprocess,json,shutil
W='/var/tmp/w/mw'; B='/var/tmp/w/mb'
if not os.path.exists(W): subprocess.run(['git','-C','/repo','worktree','add','-q','--detach',W,'HEAD'])
subprocess.run(['git','-C',W,'checkout','-q','-f',subprocess.run(['git','-C','/repo','rev-parse','HEAD'],capture_output=True,text=True).stdout.strip()])
env=dict(os.environ,SIM_REPO=W,SIM_BUILD=B)
g={}; exec(open(sys.argv[1]).read(),g)
names=sys.argv[2:]
sec=os.environ.get('SEC','20')
os.makedirs('/var/tmp/w/patches',exist_ok=True)
for m in g['M']:
    name,h,props,edits=m[0],m[1],m[2],m[3] if len(m)==4 else [(m[3],m[4],m[5])]
    if names and name not in names: continue
    subprocess.run(['git','-C',W,'checkout','-q','--','.'])
    ok=True
    for f,old,new in edits:
        s=open(f'{W}/{f}').read()
        if s.count(old)<1: print(name,'NO MATCH',f,old[:60]); ok=False; break
        if s.count(old)>1: print(name,'ambiguous',s.count(old))
        open(f'{W}/{f}','w').write(s.replace(old,new,1))
    if not ok: continue
    d=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
    open(f'/var/tmp/w/patches/{name}.diff','w').write(d)
    py=h=='demo'
    r=subprocess.run(['true'] if py else ['python3','/verif/sim/build.py',h],env=env,capture_output=True,text=True)
    if r.returncode: print(name,'BUILD FAIL',(r.stdout+r.stderr)[-600:]); continue
    res=[]
    for p in props:
        r=subprocess.run((['/opt/fcp/pyvenv/bin/python','/verif/sim/py/demo.py'] if py else [f'{B}/{h}/sim'])+['--property',p,'--harness',h,'--seed','1','--seconds',sec,'--workers','8','--out','/var/tmp/w/mo.json','--replay-out','/var/tmp/w/mr.txt']+subprocess.run(['python3','/verif/tools/known.py',p],capture_output=True,text=True).stdout.splitlines(),capture_output=True,text=True,errors='replace',timeout=int(sec)+150,env=dict(env,PYTHONHASHSEED='0'))
        try: o=json.load(open('/var/tmp/w/mo.json'))
        except Exception: o={}
        if py: r.stdout='VIOL '+str(o.get('violation'))+str(o.get('errors'))[:300]
        v=[l for l in (r.stdout+r.stderr).splitlines() if 'iolation' in l or 'VIOL' in l]
        res.append((p,r.returncode,(v[-1] if v else '')[:170], round(o.get('wall_s',0))))
    print(name,'CAUGHT' if any(x[1]==1 for x in res) else '**MISSED**',res,flush=True)
subprocess.run(['git','-C',W,'checkout','-q','--','.'])
