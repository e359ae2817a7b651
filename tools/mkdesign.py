#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, checks.json, known-findings.json, caught.json and seeded/."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J=lambda f: json.load(open(os.path.join(V,f)))
t=open(V+'/tools/DESIGN.in.md').read()
t=t.replace('@FIXES@','\n'.join('- '+x[7:] for x in J('known-findings.json')['fixed']))
P={json.loads(l)['id']:json.loads(l) for l in open(V+'/properties.jsonl')}
c=J('checks.json')['checks']; out=[]
for id in P:
    out.append(f"**{id}** {P[id]['title']}\n")
    for h in c[id]['harnesses']:
        st={'scan':'token streams','node':'generated tree captured','gen':'token streams, generated tree captured','cmd':'operating system replaced'}.get((h.get('stubs') or {}).get('set'),'real code throughout')
        if h['pkg']=='hconf': st='operating system and codecs replaced'
        out.append(f"- `{h['pkg']}.{h['fn']}` ({len(h['quick'])} quick, {len(h['thorough'])} further thorough runs; {st}): {h['bound']}")
    for a in c[id].get('assumptions',[]): out.append('- assumed: '+a)
    out.append('')
t=t.replace('@CHECKS@','\n'.join(out))
try: caught=J('tools/caught.json')
except FileNotFoundError: caught={}
rows=['| planted bug | needs | breaks | caught by |','|---|---|---|---|']
for s in sorted(os.listdir(V+'/seeded')):
    m=J(f'seeded/{s}/meta.json'); r=caught.get(s)
    rows.append('| '+' | '.join(x.replace('|','\\|') for x in (s,m['needs'],m['what_it_breaks'],(r or 'not tried')))+' |')
t=t.replace('@SEEDS@','\n'.join(rows))
m=V+'/tools/misses.md'
t=t.replace('@MISSES@\n',open(m).read() if os.path.exists(m) else '')
open(V+'/DESIGN.md','w').write(t)
