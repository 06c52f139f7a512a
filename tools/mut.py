# development aid: applies a change to a copy of /repo and runs checks against the copy.
# usage: mut.py CHECKS [SEED] file old new [file old new ...]      (CHECKS: C01,C02)
import sys,subprocess,os,tempfile,shutil
checks=sys.argv[1].split(','); a=sys.argv[2:]
seed='1'; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if a[0].isdigit(): seed=a.pop(0)
d=tempfile.mkdtemp(prefix='mut',dir='/tmp'); shutil.copytree(os.environ.get('VERIF_REPO','/repo')+'/src',d+'/src'); shutil.copytree(os.environ.get('VERIF_REPO','/repo')+'/bin',d+'/bin',ignore=lambda p,n:[x for x in n if not x.endswith('.yaml')])
for n in ('README.md','LICENSE','distribute.sh'): shutil.copy(os.path.join(os.environ.get('VERIF_REPO','/repo'),n),d)
shutil.copytree(os.environ.get('VERIF_REPO','/repo')+'/dist',d+'/dist')
try:
    for i in range(0,len(a),3):
        f=d+'/src/include/'+a[i]; t=open(f).read(); o=a[i+1].encode().decode('unicode_escape'); n=a[i+2].encode().decode('unicode_escape')
        if t.count(o)<1: print('NOT FOUND',o); sys.exit(2)
        if t.count(o)>1: print('warn: multiple',t.count(o))
        open(f,'w').write(t.replace(o,n,1))
    for c in checks:
        p=subprocess.run(['python3',os.path.join(V,'run.py'),c,'--tier','quick','--seed',seed],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,VERIF_REPO=d))
        l=p.stdout.strip().split('\n'); print(c,p.returncode,[x[:200] for x in l if 'violation in' in x or 'violation:' in x or 'quick seed' in x or 'rror' in x][:3])
        subprocess.call('rm -f %s/replays/%s-*'%(V,c),shell=True)
finally: shutil.rmtree(d)
