import json,glob,os
v='/verif/'; s=open(v+'tools/design.md').read()
fx=[]
for l in open(v+'known_findings.txt'):
    if l.startswith('fixed:'):
        _,p,c,t=l.strip().split(' ',3); fx.append(f"* {p.split('=')[1]} `{c}` {t}")
sd=["| id | property | what it breaks |","|----|----|----|"]
for d in sorted(glob.glob(v+'seeded/*/meta.json')):
    m=json.load(open(d)); sd.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} |")
s=s.replace('@FIXES@','\n'.join(fx)).replace('@SEEDS@','\n'.join(sd))
open(v+'DESIGN.md','w').write(s)
