# writes the table of planted bugs in DESIGN.md (how: recorded by hand from run.sh)
import json,glob,re
how=dict(l.split() for l in open('/verif/seedtool/caught.txt') if l.strip())
rows=['| bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {how.get(i,'not yet run')} |")
s=open('/verif/DESIGN.md').read()
t='\n'.join(rows)
s=s.replace('TABLE_SEEDS','<!--S-->\n<!--E-->')
s=re.sub(r'<!--S-->.*<!--E-->',lambda m:'<!--S-->\n'+t+'\n<!--E-->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
