#!/usr/bin/env python3
"""DESIGN.md section 5: table of planted changes (development tool; reads seeded/ and detection logs given as argv[1])"""
import sys,json,glob,os,re
d=sys.argv[1]; rows=["| change | property | needs | first counterexample (quick) |","|---|---|---|---|"]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); j=json.load(open(m)); h='?'
    try:
        t=open(f'{d}/c_{i}.log').read(); r=re.search(r'replay/(C\d\d)/vp_harness_(\S+)\.sh',t); h=f'{r[1]} `{r[2]}`' if r else 'missed'
    except Exception: pass
    rows.append(f"| {i} | {j['property']} | {j['needs'].replace('|','or')} | {h} |")
s=open('/verif/DESIGN.md').read()
new='<!--T-->\n'+'\n'.join(rows)+'\n<!--/T-->'
if '@TABLE@' in s: s=s.replace('@TABLE@',new)
else: s=re.sub(r'<!--T-->.*<!--/T-->',lambda m:new,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
print(sum('missed' in r or '?' in r.split('|')[-2] for r in rows[2:]),'without')
