import json,os,re,subprocess
d='/verif/seeded'
import sys
caught=json.load(open('/tmp/seed/caught.json'))
s=open('/verif/DESIGN.md').read()
rows=[]
old=dict(re.findall(r'^\| (C\d\d-[\w-]+) \|.*\| ([\w-]+) \|$',s,re.M))
for i in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{i}/meta.json'))
    rows.append(f"| {i} | {m['needs']} | {old.get(i) or caught.get(i,'?')} |")
a=s.index('| bug | what is needed'); b=s.index('\nBeyond these')
s=s[:a]+'| bug | what is needed | caught as |\n|---|---|---|\n'+'\n'.join(rows)+'\n'+s[b:]
open('/verif/DESIGN.md','w').write(s)
