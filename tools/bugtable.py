"""Rewrites the table of planted bugs in DESIGN.md from the meta.json files."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for m in sorted(glob.glob(root+"/seeded/*/meta.json")):
    d=json.load(open(m)); rows.append(f"| `{os.path.basename(os.path.dirname(m))}` | {d['property']} | {d['needs']} |")
p=root+"/DESIGN.md"; s=open(p).read()
i=s.index("| bug | caught by | needs |\n|---|---|---|\n")+len("| bug | caught by | needs |\n|---|---|---|\n"); j=s.index("\n\n",i)
open(p,"w").write(s[:i]+"\n".join(rows)+s[j:])
