"""mkseed.py ID PROPERTY PATCH DEMO_CC NEEDS BREAKS [--closure-extra a.cc,b.cc]"""
import sys,os,subprocess,json,shutil
sys.path.insert(0,'/verif/sim')
import build
def sh(c,**k): return subprocess.run(c,shell=isinstance(c,str),capture_output=True,text=True,errors='replace',**k)
def mk(id,prop,patch,demo,needs,breaks,exclude=(),libs='',verify=True,sh_demo=None):
    D=f'/verif/seeded/{id}'
    shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    p=open(patch).read() if os.path.exists(patch) else patch
    open(f'{D}/patch.diff','w').write(p)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{D}/meta.json','w'),indent=1)
    if sh_demo:
        open(f'{D}/demo.sh','w').write(sh_demo)
        for f,t in (demo or {}).items(): open(f'{D}/{f}','w').write(t)
    else:
        open(f'{D}/demo.cc','w').write(demo)
        ccs,protos,fbs=build.closure(f'{D}/demo.cc',{'exclude':list(exclude)})
        ccs=[c for c in ccs if c.startswith('/repo/')]
        K=f'{D}/kit'
        os.makedirs(K+'/absl'); shutil.copytree('/verif/sim/shim/absl/log',K+'/absl/log')
        shutil.copy('/verif/sim/shim/sim_prelude.h',K+'/prelude.h'); shutil.copytree('/verif/sim/shim/flatbuffers',K+'/flatbuffers')
        pass
        open(K+'/fatal.cc','w').write('#include <cstdio>\n#include <cstdlib>\nextern "C" [[noreturn]] void sim_fatal(const char* f, int l, const char* m) {\n  std::fprintf(stderr, "%s:%d: %s\\n", f, l, m);\n  std::abort();\n}\n')
        if fbs:
            G='/verif/build/secagg/gen'
            for r,_,fs in os.walk(G):
                for f in fs:
                    if f.endswith('tracing_schema.h') or f.endswith('_generated.h'):
                        rel=os.path.relpath(f'{r}/{f}',G)
                        if '/test' in rel: continue
                        os.makedirs(os.path.dirname(f'{K}/{rel}'),exist_ok=True); shutil.copy(f'{r}/{f}',f'{K}/{rel}')
        own=[]
        for q in protos:
            if not os.path.exists('/repo/'+q):
                src=build.find_proto(q); os.makedirs(os.path.dirname(f'{K}/protos/{q}'),exist_ok=True); shutil.copy(src,f'{K}/protos/{q}')
        srcs=' '.join(os.path.relpath(c,'/repo') for c in ccs)
        pr=' '.join(protos)
        s=f'''#!/bin/bash
# Run in the repository after its build. Exit 0: behaves as documented.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 9
export HOME="$T" TMPDIR="$T"
mkdir gen obj
SRCS="{srcs}"
PROTOS="{pr}"
for p in $PROTOS; do protoc -I"$R" -I"$D/kit/protos" --cpp_out=gen "$p" 2>/dev/null || exit 9; done
FLAGS="-std=c++17 -w -O1 -pthread -fno-pie -include $D/kit/prelude.h -I$D/kit -I/usr/include/android -I$R -Igen"
LIST="$D/demo.cc $D/kit/fatal.cc"
for s in $SRCS; do LIST="$LIST $R/$s"; done
for p in $PROTOS; do LIST="$LIST gen/${{p%.proto}}.pb.cc"; done
i=0
for s in $LIST; do i=$((i+1)); echo "$s obj/$i.o"; done | xargs -P 8 -L 1 sh -c 'g++ '"$FLAGS"' -c "$0" -o "$1" || exit 255' || exit 9
LIBS=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's!.*/lib!-l!; s!\\.so$!!')
g++ -no-pie -pthread obj/*.o -o demo -lz -lprotobuf -L/usr/lib/x86_64-linux-gnu/android -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lcrypto -lflatbuffers -Wl,--as-needed $LIBS {libs} || exit 9
timeout 200 ./demo
'''
        open(f'{D}/demo.sh','w').write(s)
    os.chmod(f'{D}/demo.sh',0o755)
    if not verify: return
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout=='', 'repo dirty'
    r=sh(['bash',f'{D}/demo.sh'],cwd='/repo'); a=r.returncode
    if a: print(id,'CLEAN DEMO FAILS',a,(r.stdout+r.stderr)[-800:]); return
    x=sh(['git','-C','/repo','apply',f'{D}/patch.diff'])
    if x.returncode: print(id,'PATCH DOES NOT APPLY',x.stderr[:300]); return
    try:
        b=sh('bash /opt/vp/build.sh').returncode
        sh('bash /opt/vp/test.sh /var/tmp/w/t.json'); t=json.load(open('/var/tmp/w/t.json'))
        r=sh(['bash',f'{D}/demo.sh'],cwd='/repo')
        chk=sh(['/verif/check',prop],env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'),cwd='/verif')
    finally:
        sh('git -C /repo checkout -- .')
    print(id,'build',b,'tests',len(t['passed']),len(t['failed']),'demo',r.returncode,'check',chk.returncode,(r.stdout+r.stderr)[-160:].replace('\n',' | '),chk.stdout[-140:],flush=True)
