#!/usr/bin/env python3
"""Rewrites the table of the planted bugs in DESIGN.md."""
import json,glob,os
miss=['s9c-hash-variant','s9a-desc-merge','s24-delete-families', 's25-copy-globs', 's26-langset-tail', 's27-string-bound', 's30-lang-aa', 's43-width-residue', 's50-language-lock', 's73-no-margin', 's85-first-copied', 's90-cache-tail', 's91-export-order']
rows=['| bug | check | what it breaks | first run |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    rows.append('| %s | %s | %s | %s |'%(n,m['property'],m['what_it_breaks'].split('\n')[0],'missed, check strengthened' if n in miss else 'caught'))
p='/verif/DESIGN.md'; L=open(p).read().split('\n')
i=next(k for k,l in enumerate(L) if l.startswith('| bug | check |'))
j=i
while j<len(L) and L[j].startswith('|'): j+=1
open(p,'w').write('\n'.join(L[:i]+rows+L[j:]))
