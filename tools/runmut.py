import sys, subprocess, os, shutil, json, time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import importlib; mutants=importlib.import_module(os.environ.get("MUT","mutants"))
ids=sys.argv[1:]; start=os.environ.get("FROM")
res={}
out=open('/tmp/mutres.txt','a')
for id,edits in mutants.M:
    if start:
        if id!=start: continue
        start=None
    if ids and not any(id.startswith(i) for i in ids): continue
    subprocess.call(['rm','-rf','/tmp/mrepo']); subprocess.check_call(['cp','-a','/repo','/tmp/mrepo'])
    ok=True
    for f,o,n in edits:
        p='/tmp/mrepo/dataplicity/'+f; s=open(p).read()
        if o not in s: ok=False; break
        open(p,'w').write(s.replace(o,n,1))
    if not ok:
        print(id,'NOTFOUND',f,file=out,flush=True); continue
    # tests
    r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','-x','--deselect','x','tests/'],cwd='/tmp/mrepo',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=dict(os.environ,LC_ALL='C.UTF-8',PYTHONDONTWRITEBYTECODE='1')) if 0 else None
    prop=id.split('-')[0]
    t=time.time()
    with open('/tmp/mutlog-%s.out'%id,'w') as lf:
        rc=subprocess.call(['timeout','880','bash','check.sh',prop,'--no-evidence'],cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),env=dict(os.environ,MC_REPO='/tmp/mrepo'),stdout=lf,stderr=subprocess.STDOUT)
    v=[l for l in open('/tmp/mutlog-%s.out'%id) if 'VIOLATION' in l]
    print(id,'rc=%d'%rc,'%ds'%(time.time()-t),'CAUGHT' if rc==1 and v else 'MISSED',(v[0].strip()[:150] if v else ''),file=out,flush=True)
