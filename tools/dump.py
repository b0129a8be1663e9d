"""dump.py TREE OUT CHECK...: record hashes of what the checks would judge."""
import sys, os, hashlib, json, re, subprocess
tree, out = sys.argv[1:3]; checks = sys.argv[3:]
os.environ["VERIF_REPO"] = tree
os.environ["VERIF_JOBS"] = os.environ.get("VERIF_JOBS", "1")
sys.path.insert(0, "/verif/bin"); sys.dont_write_bytecode = True
import vlib
CACHE = "/root/mut/cache"; os.makedirs(CACHE, exist_ok=True)
def sha(b): return hashlib.sha256(b).hexdigest()[:24]
def build(*drivers, san=False):
    lib, main, csrc, hdr = vlib.repo_sources()
    hf = sorted(os.path.join(vlib.HARNESS, f) for f in os.listdir(vlib.HARNESS) if f.endswith(".h"))
    hk = "".join(sha(open(p, "rb").read()) for p in hdr + hf)
    def obj(src, cc):
        key = sha((hk + cc + os.path.basename(src)).encode() + open(src, "rb").read())
        o = CACHE + "/" + key + ".o"
        if not os.path.exists(o):
            fl = [f for f in vlib.CXXFLAGS + vlib.PLAIN if f != "-g" and not (cc == "gcc" and f.startswith("-std="))]
            t = o + ".%d.o" % os.getpid()
            r = subprocess.run([cc] + fl + ["-I" + tree, "-I" + vlib.HARNESS, '-DVERSION="verif"', '-DEXCEPT_DICT_DIR="."', "-c", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print("NOCOMPILE"); sys.exit(3)
            os.rename(t, o)
        return o
    libo = [obj(s, "g++") for s in lib]
    res = None
    for d in drivers:
        objs = ([obj(s, "g++") for s in main] + libo) if d == "thpronun" else [obj(s, "gcc") for s in csrc] if d == "gen-lookup-dict" else [obj(vlib.HARNESS + "/" + d + ".cxx", "g++")] + libo
        dd = tree + "/_exe"; os.makedirs(dd, exist_ok=True)
        key = sha("".join(objs).encode())
        exe = dd + "/" + d
        kf = exe + ".key"
        if not (os.path.exists(kf) and open(kf).read() == key):
            r = subprocess.run(["g++", "-o", exe + ".t"] + objs + ["-lthai", "-ldatrie"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: print("NOCOMPILE"); sys.exit(3)
            os.rename(exe + ".t", exe); open(kf, "w").write(key)
    return tree + "/_exe"
vlib.build = build
_rl = vlib.run_lines
def run_lines(cmd, lines, timeout=60, crash=None, env=None):
    def stop(l, why): raise RuntimeError("crash " + why)
    return _rl(cmd, lines, 60, stop, env)
vlib.run_lines = run_lines
class R: states = transitions = 1; rejects = []; output = ""; violated = None
vlib.tlc = lambda *a, **k: R()
cur = None; res = {}
def norm(rec, cfg):
    if rec is None: return "None"
    rec = re.sub(r"/tmp/[^\"\s]*", "TMP", rec)
    if '"seg"' in cfg:
        try:
            j = json.loads(rec)
            if "e" in j:
                j["e"] = sorted(e[:3] for e in j["e"]); rec = json.dumps(j)
        except Exception: pass
    return rec
def conform(chk, name, module, cfg, inputs, run, **kw):
    recs = run(inputs)
    h = hashlib.sha256()
    for r in recs: h.update(norm(r, cfg).encode(errors="replace") + b"\n")
    res[cur + "/" + name] = h.hexdigest()[:16]
    if os.environ.get("KEEP"):
        with open(os.environ["KEEP"] + "/" + (cur + "_" + name).replace(" ", "_").replace("/", "_"), "w") as f:
            for r in recs: f.write(norm(r, cfg) + "\n")
    return recs
vlib.conform = conform
class Check(vlib.Check):
    def finish(self): pass
    def model(self, *a): pass
    def traces(self, *a, **k): pass
    def violation(self, what, rep): res[cur + "/direct"] = what[:200]
vlib.Check = Check
vlib.log = lambda m: None
import importlib
mods = [importlib.import_module(m) for m in ("chk_reading", "chk_dict", "chk_graph", "chk_output", "chk_syl", "chk_program")]
for c in checks:
    cur = c
    fn = next(getattr(m, c) for m in mods if hasattr(m, c))
    try: fn()
    except SystemExit as e: res[c + "/exit"] = "exit %s" % e.code
    except Exception as e: res[c + "/exc"] = repr(e)[:300]
json.dump(res, open(out, "w"), indent=0)
