#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then one section per property from
properties.jsonl, tools/claims.py, the rules in the checker and the planted bugs."""
import os,re,json,glob,sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); os.chdir(V)
sys.path.insert(0,'tools')
from claims import CLAIMED,NA,AI
from design_notes import NOTES
props=[json.loads(l) for l in open('properties.jsonl')]
src={f:open(f).read() for f in glob.glob('checker/c*.go')}
def rules(i):
    for s in src.values():
        m=re.search(r'^func check%s\(c \*Check\) \{(.*?)^\}'%i,s,re.S|re.M)
        if not m: continue
        b=re.search(r'c\.Rules = map\[string\]string\{(.*?)^\t\}',m.group(1),re.S|re.M)
        if b: return re.findall(r'"([^"]+)":\s+"((?:[^"\\]|\\.)*)"',b.group(1))
    return []
bugs={}
for m in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(m)); bugs.setdefault(d['property'],[]).append((m.split('/')[1],d['needs'],d['what_it_breaks']))
o=[open('tools/design_head.md').read().rstrip(),'\n## Properties\n']
for p in props:
    i=p['id']; o.append('### %s %s\n'%(i,p['title']))
    if i not in CLAIMED:
        o.append('**Not applicable.** %s\n'%NA[i])
        if i in NOTES: o.append(NOTES[i].strip()+'\n')
        continue
    t,l=CLAIMED[i][:2]
    o.append('*Method.* %s. *Level.* %s\n'%(t.replace(AI,'Abstract interpretation'),l))
    for k,r in rules(i): o.append('* `%s`: %s'%(k,r.replace('\\"','"')))
    o.append('')
    if i in NOTES: o.append('*Limits and decisions.* '+NOTES[i].strip()+'\n')
    if i in bugs:
        o.append('*Planted bugs, all caught by this check:* '+'; '.join('`%s` (%s)'%(n,w) for n,w,_ in bugs[i])+'.\n')
open('DESIGN.md','w').write('\n'.join(o).rstrip()+'\n')
