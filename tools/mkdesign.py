#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md from tools/design_head.md, the property table and tools/design_tail.md."""
import json,re
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
man={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
src=open('/verif/harness/src/props.rs').read()
info={}
for m in re.finditer(r'id: "(C\d+)",\n\s+rule: "((?:[^"\\]|\\.)*)",\n\s+quick: (\d+),\n\s+thorough: (\d+)',src): info[m[1]]=(m[2],m[3],m[4])
rows=[]
import glob,os
seeded="| change | caught by | needs |\n|---|---|---|\n"+"\n".join(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs'].replace('|',chr(92)+'|')} |" for f in sorted(glob.glob('/verif/seeded/*/meta.json')) for m in [json.load(open(f))])
for p in P:
    r,q,t=info[p['id']]
    r=r.replace('\\"','"').replace('|','\\|')
    rows.append(f"| {p['id']} | {p['title']} | {r} | {man[p['id']]['technique'].split(': ',1)[1]} | {q} / {t} | {p['why_tests_cant'].replace('|',chr(92)+'|')} |")
open('/verif/DESIGN.md','w').write(open('/verif/tools/design_head.md').read()+"\n".join(rows)+"\n\n"+open('/verif/tools/design_tail.md').read().replace('@SEEDED@',seeded))
