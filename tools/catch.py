#!/usr/bin/env python3
"""catch.py [ID...]: run each seeded bug's check against a patched copy."""
import sys,os,subprocess,json,shutil,tempfile,time
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    s='/verif/seeded/'+i
    pid=json.load(open(s+'/meta.json'))['property']
    d=tempfile.mkdtemp(prefix='catch-',dir='/tmp'); w=d+'/repo'
    try:
        subprocess.run(['git','-c','safe.directory=*','clone','-q','/repo',w],check=True)
        r=subprocess.run(['git','-C',w,'apply',s+'/patch.diff'])
        if r.returncode: print(i,'DOES NOT APPLY'); continue
        t=time.time()
        r=subprocess.run(['/verif/bin/check.py',pid],env=dict(os.environ,VERIF_REPO=w),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        l=[x for x in r.stdout.splitlines() if x.strip()]
        print(i,pid,'CAUGHT' if r.returncode==1 and any(x.startswith('VIOLATION property='+pid) for x in l) else 'MISSED rc=%d'%r.returncode,'%.0fs'%(time.time()-t),(l[0] if l else '')[:160],flush=True)
    finally: shutil.rmtree(d)
