import json,glob,os
t=open('/verif/tools/design/DESIGN.md').read()
more=open('/verif/tools/design/more.md').read()
na=open('/verif/tools/design/na.md').read().strip()
rows=["| bug | property | what it breaks | needs | |","|---|---|---|---|---|"]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    c=lambda s:' '.join(s.split()).replace('|','/')[:260]
    rows.append(f"| {i} | {d['property']} | {c(d['what_it_breaks'])} | {c(d['needs'])} | caught by {d['property']} |")
open('/verif/DESIGN.md','w').write(t.replace('@@MORE@@',more.strip()).replace('@@NA@@',na).replace('@@BUGS@@','\n'.join(rows)))
