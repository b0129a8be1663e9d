"""Run the check of every seed against a scratch tree with the patch."""
import os, subprocess, json, sys, concurrent.futures, time
S="/verif/seeded"
want=sys.argv[1:] or sorted(os.listdir(S))
OUT="/root/mut/seedrun.txt"
def one(a):
    k,i=a
    m=json.load(open(f"{S}/{i}/meta.json")); p=m["property"]
    t=f"/root/mut/s_{i}"
    subprocess.run(f"rm -rf {t}; mkdir {t}; git -C /repo archive HEAD | tar x -C {t}; cd {t}; git init -q . ; git apply {S}/{i}/patch.diff",shell=True,check=True)
    t0=time.time()
    try:
        r=subprocess.run(["/verif/bin/check",p],env=dict(os.environ,VERIF_REPO=t,VERIF_SEED="1",VERIF_TIER="quick",VERIF_JOBS="4"),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=1800,cwd="/verif")
        o=r.stdout.decode(errors="replace"); rc=r.returncode
    except subprocess.TimeoutExpired: o="TIMEOUT";rc=99
    subprocess.run(["rm","-rf",t])
    v="VIOLATION property=%s "%p in o
    print(i,p,rc,v,round(time.time()-t0),flush=True)
    open(OUT,"a").write("== %s %s rc=%d viol=%s\n%s\n"%(i,p,rc,v,"\n".join(o.split("\n")[-12:])[:3000]))
with concurrent.futures.ThreadPoolExecutor(3) as ex: list(ex.map(one,enumerate(want)))
