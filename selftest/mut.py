#!/usr/bin/env python3
"""mut.py FILE [ids]: run mutants. FILE defines bug(checks, file, old, new[, file, old, new...]) / ref(...) calls."""
import sys,os,shutil,subprocess,tempfile,re
from concurrent.futures import ThreadPoolExecutor
L=[]
def _add(kind,checks,*a):
    L.append((kind,checks.split(),a))
def bug(checks,*a): _add('bug',checks,*a)
def ref(checks,*a): _add('ref',checks,*a)
exec(open(sys.argv[1]).read())
ids=[int(x) for x in sys.argv[2:]] or range(len(L))
def one(i):
    kind,checks,a=L[i]
    d=tempfile.mkdtemp(prefix='mut-',dir='/tmp')
    out=''
    try:
        shutil.copytree('/repo/src',d+'/src',symlinks=True)
        for x in ('ruby',):
            if os.path.isdir('/repo/'+x): shutil.copytree('/repo/'+x,d+'/'+x,symlinks=True)
        for k in range(0,len(a),3):
            f=d+'/'+a[k]; s=open(f,encoding='latin-1').read()
            if s.count(a[k+1])<1: return '%d %s NOMATCH %s'%(i,kind,a[k+1][:60])
            s=s.replace(a[k+1],a[k+2],1)
            open(f,'w',encoding='latin-1').write(s)
        if True:
            pass
        v=d+'/v'; os.mkdir(v)
        for x in os.listdir('/verif'):
            if x not in ('evidence','.git','seeded'): os.symlink('/verif/'+x,v+'/'+x)
        for c in checks:
            r=subprocess.run(['/verif/check',c],cwd='/verif',env=dict(os.environ,OHCOUNT_REPO=d,OHCOUNT_EVID=d+'/ev'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            exp=1 if kind=='bug' else 0
            ls=[x for x in r.stdout.strip().splitlines() if not x.startswith('KNOWN')]
            out+='%d %s %s rc=%d %s %s\n'%(i,kind,c,r.returncode,'ok' if r.returncode==exp else 'XXXXXXX '+a[2][:90].replace('\n',' '),(ls or [''])[0][:170] if kind=='bug' or r.returncode else '')
    finally:
        shutil.rmtree(d)
    return out.rstrip()
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one,ids): print(r,flush=True)
