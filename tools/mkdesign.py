#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_props.py, the contracts, and design_tail.md."""
import json,os,re,glob
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H)
ns={}; exec(open(H+'/design_props.py').read(),ns)
props={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
con={}
for f in sorted(glob.glob(V+'/contracts/**/*.go',recursive=True)):
    cur=None
    for l in open(f):
        m=re.match(r'//@ (spec|safe|lemma|bounded)\b ?(.*)',l)
        if m: cur=dict(kind=m[1],target=m[2].strip(),props=[],lock=False); continue
        m=re.match(r'//@ prop(?:erty|s)? (.*)',l)
        if m and cur: cur['props']+=re.findall(r'C\d\d',m[1])
        m=re.match(r'func (?:\([^)]*\) )?(\w+)',l)
        if m and cur:
            cur['name']=m[1]
            for p in cur['props']: con.setdefault(p,[]).append(cur)
            cur=None
o=open(H+'/design_head.md').read()
for i in sorted(props):
    how,why=ns['D'][i]
    o+=f"### {i} {props[i]['title']}\n\n{how}\n\nReach: {why}\n\n"
    for k,t in (('spec','functions under contract'),('safe','functions under a safety contract'),('lemma','lemmas'),('bounded','bounded stand-ins (not proved)')):
        xs=[(c['target'] if k in('spec','safe') else c['name']) for c in con.get(i,[]) if c['kind']==k]
        if xs: o+=f"{len(xs)} {t}: "+', '.join('`'+x+'`' for x in xs)+".\n"
    o+="\n"
t=open(H+'/design_tail.md').read()
kf=json.load(open(V+'/known_findings.json')); fx=kf['fixed']
sd=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); sd.append(f"* `{f.split('/')[-2]}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']}.")
o+=t.replace('@FIXES@','\n'.join('* '+x[len('fixed: '):] for x in fx)).replace('@KNOWN@','\n'.join('* '+k['property']+' (`'+k['contract']+'`): '+k['what'] for k in kf['findings'])).replace('@SEEDED@','\n'.join(sd))
open(V+'/DESIGN.md','w').write(o)
