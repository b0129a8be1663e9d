"""run.py MUTANTS.json OUT.jsonl N CHECK...: run N sampled mutants."""
import sys, json, os, shutil, subprocess, random, concurrent.futures, threading, time
muts = json.load(open(sys.argv[1])); outp = sys.argv[2]; n = int(sys.argv[3]); checks = sys.argv[4:]
random.seed(7)
idx = list(range(len(muts)))
random.shuffle(idx); idx = sorted(idx[:n])
W = 8
base = "/root/mut/w"
trees = []
for k in range(W):
    t = base + str(k)
    shutil.rmtree(t, True); os.makedirs(t)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + t, shell=True, check=True)
    trees.append(t)
def dump(t, tag):
    o = t + "/_res.json"
    if os.path.exists(o): os.unlink(o)
    try:
        r = subprocess.run(["python3", "/root/mut/dump.py", t, o] + checks, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, env=dict(os.environ, VERIF_JOBS="1"))
    except subprocess.TimeoutExpired:
        return "timeout"
    if r.returncode == 3: return "nocompile"
    if not os.path.exists(o): return "fail " + r.stdout.decode()[-300:]
    return json.load(open(o))
def hashbase():
    return dump(trees[0], "base")
b = hashbase()
assert isinstance(b, dict), b
bad = [k for k in b if "/ex" in k or "/direct" in k]
print("base", len(b), bad, flush=True)
free = list(trees); lock = threading.Lock()
def one(i):
    f, ln, new, kind = muts[i]
    with lock: t = free.pop()
    p = t + "/" + f
    orig = open(p, encoding="utf-8").read()
    try:
        ls = orig.split("\n"); old = ls[ln]; ls[ln] = new
        open(p, "w", encoding="utf-8").write("\n".join(ls))
        r = dump(t, i)
    finally:
        open(p, "w", encoding="utf-8").write(orig)
        with lock: free.append(t)
    if isinstance(r, dict):
        caught = sorted({k.split("/")[0] for k in set(r) | set(b) if r.get(k) != b.get(k)})
        res = dict(i=i, f=f, line=ln + 1, kind=kind, old=old.strip(), new=new.strip(), caught=caught)
    else:
        res = dict(i=i, f=f, line=ln + 1, kind=kind, old=old.strip(), new=new.strip(), status=r)
    with lock:
        open(outp, "a").write(json.dumps(res, ensure_ascii=False) + "\n")
with concurrent.futures.ThreadPoolExecutor(W) as ex: list(ex.map(one, idx))
