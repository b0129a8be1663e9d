import json,os,re
S="/verif/seeded"
d=open('/verif/DESIGN.md',encoding='utf-8').read()
first={l.split(" | ")[0][2:]:l.split(" | ")[-1].rstrip(" |") for l in d.split("\n") if l.startswith("| ")}
extra=json.load(open('/root/mut/seedextra.json')) if os.path.exists('/root/mut/seedextra.json') else {}
rows=["| Change | Property | What it needs | Caught by |","|---|---|---|---|"]
for i in sorted(os.listdir(S),key=lambda i:(json.load(open(f"{S}/{i}/meta.json"))["property"],i)):
    m=json.load(open(f"{S}/{i}/meta.json"))
    c=m["property"]
    c=first.get(i,c)
    if i in extra: c=c+" ("+extra[i]+")"
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {c} |")
if "SEEDTABLE" in d: d=d.replace("SEEDTABLE","\n".join(rows))
else: d=re.sub(r"\| Change \| Property.*?(?=\n\n)",lambda m:"\n".join(rows),d,flags=re.S)
open('/verif/DESIGN.md','w',encoding='utf-8').write(d)
