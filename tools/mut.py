#!/usr/bin/env python3
"""Development helper: run checks against edited copies of the program.
usage: from mut import mut; mut('name', ['C10'], [(file, old, new)...], want)"""
import os,subprocess,shutil,tempfile,sys,re
from concurrent.futures import ThreadPoolExecutor
POOL=ThreadPoolExecutor(int(os.environ.get('J','6')))
BIN=None
def mut(name,ids,*a,**k):
    """Queues an edit; arguments of the program select by name."""
    global BIN
    if BIN is None: # so that the checker can be rebuilt meanwhile
        BIN=tempfile.mktemp(prefix='mutbin.'); shutil.copy(V+'/bin/checker',BIN)
        import atexit; atexit.register(lambda: os.remove(BIN))
    if sys.argv[1:] and not any(re.search(x,name) for x in sys.argv[1:]): return
    def run():
        out=[]
        mut1(out.append,name,ids,*a,**k)
        print('\n'.join(out),flush=True)
    POOL.submit(run).add_done_callback(lambda f: f.exception() and print(name,'EXC',f.exception()))
V=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
def mut1(print,name,ids,edits,want=1,show=3,test=False):
    w=tempfile.mkdtemp(prefix='mut.')
    r=w+'/repo'
    shutil.copytree('/repo',r,symlinks=True,ignore=shutil.ignore_patterns('.git'))
    for f,old,new in edits:
        p=r+'/'+f; s=open(p).read()
        if s.count(old)!=1: print(f'{name} BAD EDIT {f} {s.count(old)} {old!r}'); shutil.rmtree(w); return
        open(p,'w').write(s.replace(old,new))
    b=subprocess.run(['go','build','./...'],cwd=r,capture_output=True,text=True,env=dict(os.environ,GOFLAGS='-mod=mod -buildvcs=false',GOPROXY='off',GOTOOLCHAIN='local'))
    if b.returncode: print(f'{name} DOES NOT BUILD {b.stderr[:600]}'); shutil.rmtree(w); return
    for i in ids:
        os.makedirs(w+'/v/evidence',exist_ok=True)
        p=subprocess.run([BIN,'check',i],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=r,VERIF_DIR=w+'/v'))
        ok='ok ' if (p.returncode!=0)==(want!=0) else '???'
        print(f'{ok} {name} {i} exit {p.returncode}')
        if ok!='ok ' or want:
            for l in p.stdout.split('\n')[:show]: print('       '+l[:260])
        if p.returncode==2: print(p.stderr[:500])
    shutil.rmtree(w)
