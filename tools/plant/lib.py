import os,subprocess,sys,json,time,shutil
R=os.environ.get('PR','/repo'); V=os.environ.get('PV','/verif/seeded/')
SH='''#!/bin/bash
# run with the repository as the current directory; exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
${CXX:-g++} -std=c++11 -O1 -g -w -pthread %s -I"$PWD/src/include" -I"$D" "$D/demo.cpp" -o "$W/demo" || exit 1
cd "$W" && timeout -s KILL 200 ./demo > "$W/out.txt" 2>&1
rc=$?
tail -5 "$W/out.txt"
exit $rc
'''
H='''#include "fn_log.h"
#include <fstream>
#include <iostream>
using namespace FNLog;
static std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static int count(const std::string& t, const std::string& w) { int n = 0; for (size_t p = t.find(w); p != std::string::npos; p = t.find(w, p + w.length())) n++; return n; }
#define MUST(c) do { if (!(c)) { printf("\\nFAILED line %d: %s\\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
#define LOGTO(lg, ch, pri, cat, id) LogStream(lg, ch, pri, cat, id, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_NULL)
'''
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def restore(): subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
def build():
    p=sh('bash','/opt/vp/build.sh'); return p.returncode==0,p.stdout[-1500:]
def plant(pid,prop,edits,demo,needs,breaks,flags="",test=os.environ.get("PTEST","1")=="1",check=os.environ.get("PCHECK","1")=="1"):
    assert not sh('git','-C',R,'status','--porcelain').stdout.strip()
    d=V+pid; os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(SH%flags); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.h','w').write(H); open(d+'/demo.cpp','w').write('#include "demo.h"\n'+demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    t0=time.time()
    try:
        g=sh(d+'/demo.sh',cwd=R); print(pid,'unpatched demo',g.returncode,'%.1fs'%(time.time()-t0),g.stdout[-600:] if g.returncode else '')
        okg=g.returncode==0
        for f,o,n in edits:
            p=R+'/src/include/'+f; t=open(p).read(); assert t.count(o)==1,(f,o,t.count(o)); open(p,'w').write(t.replace(o,n))
        df=subprocess.run(['git','-C',R,'diff'],stdout=subprocess.PIPE).stdout
        open(d+'/patch.diff','wb').write(df)
        t0=time.time(); b=sh(d+'/demo.sh',cwd=R); print(pid,'patched demo',b.returncode,'%.1fs'%(time.time()-t0),b.stdout.strip()[-300:])
        okb=b.returncode!=0
        # lines changed must be original ones
        for f,o,n in edits:
            bl=sh('git','-C',R,'blame','-s','HEAD','--','src/include/'+f).stdout.split('\n')
            rm=[l[1:] for l in df.decode().split('\n') if l.startswith('-') and not l.startswith('---')]
            own=[l for l in bl for r in rm if l.endswith(') '+r) and r.strip() and not l.startswith('^') and not l.startswith('9848c06')]
            if own: print('  WARNING own lines:',own[:4])
        okt=True
        if test and okg and okb:
            ok,o=build()
            if not ok: print('BUILD FAILED',o); okt=False
            else:
                sh('bash','/opt/vp/test.sh','/tmp/plant/o.json'); r=json.load(open('/tmp/plant/o.json')); okt=len(r['failed'])==0; print(pid,'tests',len(r['passed']),r['failed'])
        if check:
            c=sh('python3',os.environ.get('PVERIF','/verif')+'/run.py',prop,'--tier','quick','--seed','1',env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick',VERIF_REPO=R))
            l=[x[:220] for x in c.stdout.split('\n') if 'violation in' in x or 'quick seed' in x or 'rror' in x]
            print(pid,'CHECK',prop,c.returncode,l[:3])
    finally: restore()
    print(pid,'USABLE' if okg and okb and okt else '*** NOT USABLE'); sys.stdout.flush()
