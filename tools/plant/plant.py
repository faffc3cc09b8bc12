#!/usr/bin/env python3
"""plant.py [ID...]: make and confirm the planted bugs of bugs*.py"""
import sys,os,subprocess,json,shutil,tempfile,glob
sys.path.insert(0,'/tmp/plant')
BUGS={}
for f in sorted(glob.glob('/tmp/plant/bugs*.py')):
    ns={}; exec(open(f).read(),ns); BUGS.update(ns['BUGS'])
ids=sys.argv[1:] or list(BUGS)
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false',CGO_ENABLED='0')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c,cwd,t=600): 
    return subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def tests(w):
    shutil.rmtree(w+'/src/ferryd/core/testenv',ignore_errors=True); shutil.rmtree(w+'/src/libeopkg/TESTING',ignore_errors=True)
    r=sh('go test -json -vet=off -count=1 ./...',w)
    ok=set()
    for l in r.stdout.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
    return stable-ok
for i in ids:
    b=BUGS[i]
    d=tempfile.mkdtemp(prefix='plant-',dir='/tmp'); w=d+'/repo'
    try:
        subprocess.run(['git','-c','safe.directory=*','clone','-q','/repo',w],check=True)
        out=os.environ.get('SEEDOUT','/verif/seeded')+'/'+i; tmp=d+'/out'; os.mkdir(tmp)
        pkg=b.get('pkg','src/ferryd/core')
        if 'files' in b:
            for n,t in b['files'].items(): open(f'{tmp}/{n}','w').write(t)
        if 'demo' in b:
            open(tmp+'/demo_test.go','w').write(b['demo'])
            if pkg=='src/ferryd/core': shutil.copy('/tmp/plant/helper_test.go',tmp)
        ds=b.get('sh') or open('/tmp/plant/demo.sh').read().replace('@PKG@',pkg)
        open(tmp+'/demo.sh','w').write(ds); os.chmod(tmp+'/demo.sh',0o755)
        shutil.copytree(tmp,d+'/away'); 
        r=sh('gofmt -l '+tmp,w)
        if r.stdout.strip(): sh('gofmt -w '+tmp+'/*.go '+d+'/away/*.go',w)
        r0=sh(f'bash {d}/away/demo.sh',w)
        if r0.returncode!=0: print(i,'DEMO FAILS UNCHANGED\n'+r0.stdout[-1500:]); continue
        bad=False
        for f,o,n,*k in b['edits']:
            s=open(f'{w}/{f}').read()
            if s.count(o)!=1 and not k: print(i,'edit matches',s.count(o),f,repr(o)[:80]); bad=True; break
            if k: 
                parts=s.split(o); j=k[0]
                s=o.join(parts[:j+1])+n+o.join(parts[j+1:])
            else: s=s.replace(o,n)
            open(f'{w}/{f}','w').write(s)
        if bad: continue
        r=sh('go build ./...',w)
        if r.returncode: print(i,'BUILD\n'+r.stdout[-1500:]); continue
        miss=tests(w)
        if miss: print(i,'STABLE TESTS FAIL',miss); continue
        sh('git checkout -q -- "*_test.go"; rm -rf src/ferryd/core/testenv src/libeopkg/TESTING',w)
        r1=sh(f'bash {d}/away/demo.sh',w)
        if r1.returncode==0: print(i,'DEMO PASSES WITH PATCH'); continue
        fmt=sh('gofmt -l '+' '.join({e[0] for e in b['edits']}),w).stdout.split()
        diff=subprocess.run(['git','-C',w,'diff','--no-color'],stdout=subprocess.PIPE).stdout
        open(tmp+'/patch.diff','wb').write(diff)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(tmp+'/meta.json','w'),indent=1)
        # changed lines must be of the original
        bl=subprocess.run(['git','-C','/repo','log','--format=%h','93b3d6d..HEAD'],stdout=subprocess.PIPE,text=True).stdout
        shutil.rmtree(out,ignore_errors=True); os.makedirs(os.path.dirname(out),exist_ok=True); shutil.copytree(tmp,out)
        own=[]
        for f in {e[0] for e in b['edits']}:
            hunk=[l for l in diff.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
            base=subprocess.run(['git','-C','/repo','show','93b3d6d:'+f],stdout=subprocess.PIPE,text=True).stdout
        for l in hunk:
            if l[1:].strip() and not any(l[1:] in subprocess.run(['git','-C','/repo','show','93b3d6d:'+f],stdout=subprocess.PIPE,text=True).stdout.splitlines() for f in {e[0] for e in b['edits']}): own.append(l)
        print(i,'ok',[l for l in r1.stdout.splitlines() if '_test.go' in l or 'panic' in l][:1],'OWN-LINES' if own else '',own[:2], [f for f in fmt if f])
    finally: shutil.rmtree(d)
