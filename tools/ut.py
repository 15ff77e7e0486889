"""ut.py fcp/.../x_test.cc: compile an upstream unit test natively and run it contained."""
import sys,os,subprocess,hashlib
sys.path.insert(0,'/verif/sim')
import build
R=os.environ.get('SIM_REPO','/repo')
build.REPO=R
h={}
from concurrent.futures import ThreadPoolExecutor
test=sys.argv[1]
ccs,protos,fbs=build.closure(f'{R}/{test}',{})
W='/var/tmp/w/ut'; G=W+'/gen'; os.makedirs(G,exist_ok=True); os.makedirs(W+'/o',exist_ok=True)
open(W+'/stub.cc','w').write('#include <cstdio>\n#include <cstdlib>\nextern "C" [[noreturn]] void sim_fatal(const char* f,int l,const char* m){fprintf(stderr,"FATAL %s:%d %s\\n",f,l,m);abort();}\n')
subprocess.run(['protoc']+['-I'+r for r in build.PROTO_ROOTS]+['--cpp_out='+G]+[build.find_proto(p) for p in protos])
build.gen_tracing(G)
inc=['-I/verif/sim/shim','-I/usr/include/android',f'-I{R}','-I'+G]
objs=[]
def cc(src):
    o=W+'/o/'+src.replace('/','_')+'.o'
    if not os.path.exists(o) or os.path.getmtime(o)<os.path.getmtime(src) or src.startswith('/repo'):
        r=subprocess.run(['g++','-std=c++17','-w','-O0','-g0','-fno-pie','-pthread','-include','/verif/sim/shim/sim_prelude.h']+inc+['-c',src,'-o',o],capture_output=True,text=True)
        if r.returncode: print(src,r.stderr[:int(os.environ.get('ERR','200'))].replace('\n',' ')); return None
    return o
srcs=list(ccs)+[W+'/stub.cc']
for p in protos:
    f=f'{G}/{p[:-6]}.pb.cc'
    if os.path.exists(f): srcs.append(f)
    else: print('no gen',p)
with ThreadPoolExecutor(8) as ex: objs=list(ex.map(cc,srcs))
objs=[o for o in objs if o]
out=W+'/'+os.path.basename(test)[:-3]
libs=['-lz','-lprotobuf','-L/usr/lib/x86_64-linux-gnu/android','-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android','-lcrypto','-lflatbuffers','-lgtest','-lgmock','-lgtest_main']+build.absl_libs()
r=subprocess.run(['g++','-no-pie','-pthread','-Wl,--unresolved-symbols=ignore-all']+objs+['-o',out]+libs,capture_output=True,text=True)
if r.returncode: print(r.stderr[-1500:]); sys.exit(1)
# Tests delete whole directories (some remove testing::TempDir() itself): run
# them as an unprivileged user whose only writable place is a directory of its own.
import tempfile,shutil,pwd
own=tempfile.mkdtemp(prefix='ut.',dir='/var/tmp')
n=pwd.getpwnam('nobody')
os.makedirs(own+'/t'); os.chown(own+'/t',n.pw_uid,n.pw_gid); os.chmod(own,0o755)
shutil.copy(out,own+'/test'); os.chmod(own+'/test',0o755)
try:
    r=subprocess.run(['setpriv','--reuid',str(n.pw_uid),'--regid',str(n.pw_gid),'--clear-groups',own+'/test'],capture_output=True,text=True,errors='replace',timeout=300,cwd=own+'/t',
        env={'TEST_TMPDIR':own+'/t/tmp','TMPDIR':own+'/t','HOME':own+'/t','PATH':'/usr/bin:/bin'},
        preexec_fn=lambda: os.makedirs(own+'/t/tmp',0o777,exist_ok=True) or os.chown(own+'/t/tmp',n.pw_uid,n.pw_gid))
finally:
    shutil.rmtree(own,ignore_errors=True)
print('\n'.join([l for l in r.stdout.splitlines() if 'FAILED' in l or 'PASSED' in l or 'Failure' in l][-12:]), r.returncode)
