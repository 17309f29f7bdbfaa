#!/usr/bin/env python3
"""Helper for writing planted bugs: seed(id, prop, edits, pkg, test, needs, breaks)."""
import os,subprocess,shutil,json,tempfile,sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
DEMO='''#!/bin/bash
# Runs the demonstration as an in-package test of the current tree.
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GODEBUG=randautoseed=0 TMPDIR="$T"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" >"$T/o.json"
%(env)sgo test -vet=off -count=1 %(flags)s-timeout 120s -overlay "$T/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def seed(id,prop,edits,pkg,test,needs,breaks,flags='',env=''):
    w=tempfile.mkdtemp(prefix='seed.')
    subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
    for f,old,new in edits:
        p=w+'/r/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    d=V+'/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=subprocess.check_output(['git','diff'],cwd=w+'/r').decode()
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO%dict(pkg=pkg,flags=flags,env=env))
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(test.lstrip())
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    # report if the changed lines are not original ones
    base=subprocess.check_output(['git','log','--format=%H','--reverse'],cwd='/repo').decode().split()[0]
    orig=set()
    for f,_,_ in edits:
        r=subprocess.run(['git','show',base+':'+f],cwd='/repo',capture_output=True)
        orig|=set(r.stdout.decode().split('\n'))
    rem=[l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    if not any(l in orig for l in rem if l.strip()): print(id,'WARNING: changes no original line',rem)
    shutil.rmtree(w)
