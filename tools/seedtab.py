import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); i=os.path.basename(d.rstrip('/'))
    c=lambda s:' '.join(s.split()).replace('|','/')
    rows.append(f"| {i} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {m['property']} |")
t="| change | what it breaks | needs | caught by |\n|---|---|---|---|\n"+"\n".join(rows)
import re
s=open('/verif/DESIGN.md').read()
if '@SEEDS@' in s: s=s.replace('@SEEDS@','<!-- seeds -->\n'+t+'\n<!-- /seeds -->')
else: s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+t+'\n<!-- /seeds -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
