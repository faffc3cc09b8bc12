#!/usr/bin/env python3
"""mut.py FILE OLD NEW [-n K] PID...: mutate a copy of /repo and run checks."""
import sys,subprocess,os,shutil,tempfile
f,old,new,*pids=sys.argv[1:]
k=None
if pids and pids[0].startswith('-n'): k=int(pids.pop(0)[2:])
d=tempfile.mkdtemp(prefix='mw-',dir='/tmp'); w=d+'/repo'
subprocess.run(['cp','-a','/repo',w],check=True)
try:
    p=w+'/'+f; s=open(p).read()
    old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
    n=s.count(old)
    if n==0: sys.exit('NOT FOUND')
    if k is None: s=s.replace(old,new)
    else:
        parts=s.split(old); s=old.join(parts[:k+1])+new+old.join(parts[k+1:])
    open(p,'w').write(s)
    e=dict(os.environ,VERIF_REPO=w)
    for pid in pids:
        r=subprocess.run(['/verif/bin/check.py',pid],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        l=[x for x in r.stdout.splitlines() if x.strip()]
        print(pid,r.returncode,(l[0][:220] if l else ''), '...', (l[-1][:100] if l else ''))
finally: shutil.rmtree(d)
