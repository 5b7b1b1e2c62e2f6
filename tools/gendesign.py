#!/usr/bin/env python3
# Writes DESIGN.md: head, table of harness bounds (from the harness sources), tail, table of seeds.
import re,glob,json,os
d=os.path.dirname(os.path.abspath(__file__))
o=open(d+'/design_head.md').read()
rows=[]
for f in glob.glob(d+'/../gosym/harness/*.go'):
    s=open(f).read()
    for m in re.finditer(r'reg\("(\w+)",(.*?)\n\)',s,re.S):
        for h in re.finditer(r'H\{F: (\w+), Bounds: "((?:[^"\\]|\\.)*)"',m.group(2)):
            rows.append((m.group(1),h.group(1),h.group(2).replace('|','\\|')))
o+="| property | harness | bounds (deep/thorough in parentheses) |\n|---|---|---|\n"
order={c:i for i,c in enumerate("TEFXPL")}
for r in sorted(rows,key=lambda r:(order[r[0][0]],r[0])): o+="| %s | %s | %s |\n"%r
o+=open(d+'/design_tail.md').read()
o+="| planted bug | property | needs | result |\n|---|---|---|---|\n"
notes={}
if os.path.exists(d+'/seednotes.json'): notes=json.load(open(d+'/seednotes.json'))
for m in sorted(glob.glob(d+'/../seeded/*/meta.json')):
    j=json.load(open(m)); i=m.split('/')[-2]
    o+="| %s | %s | %s | %s |\n"%(i,j['property'],str(j['needs']).replace('|','\\|'),notes.get(i,"caught by "+j['property']))
open(d+'/../DESIGN.md','w').write(o)
