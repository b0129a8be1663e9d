"""Common machinery of the checks: build the drivers from the current tree, run
them, let TLC judge what they recorded, and report."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = ":".join("/opt/veriftools/tla/" + j
                for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
T0 = time.time()

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="thpronun-verif-")
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def die(msg):
    """The check itself went wrong: neither held nor broken."""
    print("ERROR: " + msg, file=sys.stderr)
    stop()


def stop():
    """End early: what was found broken before that stays broken."""
    if Check.current and Check.current.violations:
        Check.current.finish()
    sys.exit(2)


def log(msg):
    print("[%6.1fs] %s" % (time.time() - T0, msg), flush=True)


def rng(salt=""):
    return random.Random("%d/%s" % (SEED, salt))


# ------------------------------------------------------------------ build --
CXXFLAGS = ["-std=c++14", "-g", "-fno-strict-aliasing", "-w", "-pthread"]
PLAIN = ["-O1"]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-fsanitize=thread"]
SKIP = {"_build", "tests", "autom4te.cache", "build-aux", "m4", ".git", "data"}


def repo_sources():
    """(library sources, main program sources, C sources, headers)"""
    lib, main, c, hdr = [], [], [], []
    for d, subs, files in os.walk(REPO):
        subs[:] = sorted(s for s in subs if s not in SKIP)
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith((".cxx", ".cpp", ".cc")):
                (main if os.path.basename(d) == "thpronun" else lib).append(p)
            elif f.endswith(".c"):
                c.append(p)
            elif f.endswith((".h", ".inl", ".hpp")):
                hdr.append(p)
    return lib, main, c, hdr


def build(*drivers, san=False):
    """Build drivers (names of harness/*.cxx, or thpronun, gen-lookup-dict)
    from the current tree.  Returns the directory with the executables."""
    lib, main, csrc, hdr = repo_sources()
    flags = CXXFLAGS + (TSAN if san == "thread" else SAN if san else PLAIN)
    h = hashlib.sha256(repr((REPO, flags)).encode())
    hfiles = sorted(os.path.join(HARNESS, f) for f in os.listdir(HARNESS))
    for p in lib + main + csrc + hdr + hfiles:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    root = os.path.join(VERIF, ".build")
    out = os.path.join(root, h.hexdigest()[:20])
    os.makedirs(out, exist_ok=True)
    if san:
        open(os.path.join(out, "sanitized"), "w").close()
    os.utime(out)
    # forget old builds; another check may be doing the same
    def age(x):
        try:
            return time.time() - os.path.getmtime(x)
        except OSError:
            return 0
    old = sorted((os.path.join(root, x) for x in os.listdir(root)), key=age)
    for x in old[12:]:
        if x != out and age(x) > 3600:
            shutil.rmtree(x, True)

    jobs, objs = [], []

    def obj(src, cc):
        o = os.path.join(out, re.sub(r"[^A-Za-z0-9]", "_", src) + ".o")
        if not os.path.exists(o):
            jobs.append((cc, src, o))
        return o

    libobjs = [obj(s, "g++") for s in lib]
    links = []
    for d in drivers:
        exe = os.path.join(out, d)
        if os.path.exists(exe):
            continue
        if d == "thpronun":
            links.append((exe, [obj(s, "g++") for s in main] + libobjs))
        elif d == "gen-lookup-dict":
            links.append((exe, [obj(s, "gcc") for s in csrc]))
        else:
            links.append((exe, [obj(os.path.join(HARNESS, d + ".cxx"), "g++")]
                          + libobjs))
    inc = ["-I" + REPO, "-I" + HARNESS, '-DVERSION="verif"',
           '-DEXCEPT_DICT_DIR="."']

    def compile1(j):
        cc, src, o = j
        fl = [f for f in flags if not (cc == "gcc" and f.startswith("-std="))]
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run([cc] + fl + inc + ["-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return src + ":\n" + r.stdout.decode(errors="replace")
        os.replace(tmp, o)

    def link1(l):
        exe, objs = l
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-o", tmp] + objs
                           + ["-lthai", "-ldatrie"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return exe + ":\n" + r.stdout.decode(errors="replace")
        os.replace(tmp, exe)

    if jobs or links:
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(compile1, jobs) if e]
            if not errs:
                errs = [e for e in ex.map(link1, links) if e]
        if errs:
            die("build failed\n" + "\n".join(errs))
        log("built %s%s" % (", ".join(drivers), " with sanitizers" if san else ""))
    return out


# ---------------------------------------------------------------- drivers --
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:"
           "hard_rss_limit_mb=3500",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")


def limited(cmd):
    """The command with bounded memory (sanitizers bound it themselves)."""
    if os.path.exists(os.path.join(os.path.dirname(cmd[0]), "sanitized")):
        return cmd
    return ["/bin/sh", "-c", 'ulimit -v 4000000; exec "$@"', "sh"] + cmd


def feed(cmd, text, timeout, env=None):
    """Run a driver; it hangs if nothing comes from it for timeout seconds, or
    if it is not through after 300."""
    start = time.time()
    with tempfile.TemporaryFile(dir=tmpdir()) as f:
        f.write(text.encode())
        f.seek(0)
        p = subprocess.Popen(limited(cmd), stdin=f, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env or ENV)
    last = [time.time()]
    parts = ([], [])

    def take(pipe, to):
        while True:
            b = pipe.read1(1 << 16)
            if not b:
                return
            to.append(b)
            last[0] = time.time()
    readers = [threading.Thread(target=take, args=x)
               for x in zip((p.stdout, p.stderr), parts)]
    for t in readers:
        t.start()
    why = None
    while p.poll() is None:
        readers[0].join(.5)
        if not readers[0].is_alive():
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                pass
        now = time.time()
        if p.poll() is None and (now - last[0] >= timeout or now - start >= 300):
            p.kill()
            p.wait()
            why = "timeout"
    for t in readers:
        t.join()
    p.stdout.close()
    p.stderr.close()
    return -1 if why else p.returncode, b"".join(parts[0]), b"".join(parts[1]), why


def run_lines(cmd, lines, timeout=120, crash=None, env=None):
    """Feed lines to a driver that answers each with one line.  If it dies, the
    answer to the line that killed it is crash(reason), and a new driver takes
    over from the next line.  If it hangs, that was it."""
    answers = []
    i = 0
    deaths = 0
    while i < len(lines):
        code, outb, errb, why = feed(cmd, "\n".join(lines[i:]) + "\n", timeout, env)
        got = outb.decode(errors="replace").split("\n")
        got = got[:-1]          # text after the last newline is incomplete
        got = got[:len(lines) - i]
        answers += got
        i += len(got)
        if i < len(lines):
            if code == 2:
                die("driver %s: %s" % (cmd, errb.decode(errors="replace")[-800:]))
            if code == 0:
                die("driver %s answered %d of %d lines" % (cmd, i, len(lines)))
            if why is None:
                why = "ended with status %d: %s" % (
                    code, errb.decode(errors="replace").strip()[-300:])
            if crash is None:
                die("driver %s failed on %r: %s" % (cmd, lines[i], why))
            answers.append(crash(lines[i], why))
            i += 1
            deaths += 1
            if deaths >= 40 or why == "timeout":    # enough: leave the rest out
                answers += [None] * (len(lines) - i)
                break
    return answers


def parallel(fn, items, jobs=None):
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


# -------------------------------------------------------------------- TLC --
class TlcResult:
    def __init__(self):
        self.states = self.transitions = 0
        self.rejects = []       # (index from 1, text)
        self.output = ""
        self.violated = None


def tlc(module, cfg, env=None, workers=1, heap="2g", timeout=800, extra=(),
        allow_violation=False):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(dir=tmpdir())
    cfgp = os.path.join(d, module + ".cfg")
    open(cfgp, "w").write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d,
           "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:CICompilerCount=2" if workers == 1 else "-XX:CICompilerCount=4",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", d,
           "-noGenerateSpecTE", "-config", cfgp] + list(extra) \
        + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=e, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        die("TLC timed out on " + module)
    out = r.stdout.decode(errors="replace")
    res = TlcResult()
    res.output = out
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out,
                   re.M)
    if m:
        res.transitions, res.states = map(int, m[-1])
    for m in re.finditer(r'^"@REJECT (\d+) (.*)"$', out, re.M):
        res.rejects.append((int(m.group(1)), m.group(2)))
    if "Model checking completed. No error has been found." in out \
            or (r.returncode == 0 and "Finished in" in out):
        shutil.rmtree(d, True)
        return res
    m = re.search(r"Error: (Invariant \S+ is violated|.*property.* violated|"
                  r"Temporal properties were violated|Action property.*violated)", out)
    if m and allow_violation:
        res.violated = m.group(1)
        shutil.rmtree(d, True)
        return res
    keep = "\n".join(l for l in out.split("\n") if not l.startswith(
        ("Parsing", "Semantic", "Linting", "TLC2", "Warning: Please", "(Use the",
         "Running", "Implied-temporal")) and l.strip())
    if len(keep) > 2400:
        keep = keep[:1200] + "\n...\n" + keep[-1200:]
    die("TLC failed on %s (status %d)\n%s" % (module, r.returncode, keep))


def judge(module, cfg, records, env=None, chunk=None, heap="2g"):
    """Let TLC judge records (JSON texts).  Returns (rejects, states,
    transitions); a reject is (index from 0, text)."""
    n = len(records)
    if n == 0:
        die("no records for " + module)
    k = min(JOBS, n, max(n // 300, sum(map(len, records)) // 60000) + 1)
    if chunk:
        k = max(k, (n + chunk - 1) // chunk)
    parts = [list(range(j, n, k)) for j in range(k)]

    def one(part):
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False,
                                        dir=tmpdir(), encoding="utf-8")
        with f:
            for i in part:
                f.write(records[i] + "\n")
        r = tlc(module, cfg, dict(env or {}, TRACE=f.name), heap=heap)
        os.unlink(f.name)
        return [(part[i - 1], t) for i, t in r.rejects], r.states, r.transitions

    rej, st, tr = [], 0, 0
    for a, b, c in parallel(one, parts):
        rej += a
        st += b
        tr += c
    return sorted(rej), st, tr


def conform(chk, name, module, cfg, inputs, run, env=None, show=str,
            replay=None, corrupt=None, heap="2g", counts=None, sample=True):
    """Conformance: run(inputs) gives a record (JSON text) for each input, which
    the trace specification module has to accept.  A rejection counts if
    running the input again is rejected again.  corrupt(record) gives records
    that have to be rejected; they show that the judge is awake."""
    recs = run(inputs)
    keep = [i for i, r in enumerate(recs) if r is not None]
    inputs = [inputs[i] for i in keep]
    recs = [recs[i] for i in keep]
    fake = []
    if corrupt:
        order = list(range(len(recs)))
        rng(name).shuffle(order)
        for i in order:
            fake = corrupt(json.loads(recs[i]))
            if fake:
                break
    n = len(recs)
    rej, st, tr = judge(module, cfg, recs + [json.dumps(f) for f in fake], env,
                        heap=heap)
    real = [(i, t) for i, t in rej if i < n]
    if not real and corrupt and not fake:
        die("%s: no record to corrupt" % name)
    if not real and len(rej) != len(fake):
        die("%s: %d of %d corrupted records were accepted: %s"
            % (name, len(fake) - len(rej), len(fake), json.dumps(fake)[:2000]))
    chk.traces(name, n, st, tr,
               samples=[dict(input=show(inputs[n // 2]),
                             record=json.loads(recs[n // 2]))] if sample else (),
               corrupted_rejected=len(fake) if not real else 0,
               **(counts(recs) if counts else {}))
    if real:
        sub = [inputs[i] for i, _ in real]
        again = run(sub[:60])
        sub = [x for x, a in zip(sub, again) if a is not None]
        again = [a for a in again if a is not None]
        rej2 = judge(module, cfg, again, env, heap=heap)[0] if again else []
        if not rej2:
            # alone they are fine; perhaps it takes what came before them
            again = run(inputs)
            keep = [i for i, a in enumerate(again) if a is not None]
            sub = [inputs[i] for i in keep]
            rej2 = judge(module, cfg, [again[i] for i in keep], env, heap=heap)[0][:60]
        if not rej2:
            die("%s: rejections did not repeat: %s" % (name, real[:3]))
        for i, t in rej2:
            chk.violation("%s: %s: %s" % (name, show(sub[i]), t),
                          dict(input=show(sub[i]), reject=t,
                               **(replay(sub[i]) if replay else {})))
    return recs


# --------------------------------------------------------------- reporting --
class Check:
    """Collects what a run covered and how it ended."""

    current = None

    def __init__(self, prop, level="model_checking"):
        Check.current = self
        self.prop = prop
        self.level = level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        samples=[])
        self.assume = []
        self.violations = []
        log("%s: tier %s, seed %d, tree %s" % (prop, TIER, SEED, REPO))

    def model(self, name, res):
        self.cov["states"] += res.states
        self.cov["transitions"] += res.transitions
        self.cov.setdefault("models", {})[name] = dict(
            states=res.states, transitions=res.transitions)
        log("model %s: %d states, %d transitions" % (name, res.states,
                                                     res.transitions))

    def traces(self, name, n, st=0, tr=0, samples=(), **more):
        self.cov["traces_validated_against_impl"] += n
        self.cov["states"] += st
        self.cov["transitions"] += tr
        self.cov.setdefault("conformance", {})[name] = dict(records=n, **more)
        self.cov["samples"] += list(samples)[:3]
        log("conformance %s: %d records %s" % (name, n, more or ""))

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        known = known_findings(self.prop)
        fresh = []
        for what, rep in self.violations:
            k = next((k for k in known if k in what), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
            else:
                fresh.append((what, rep))
        ev = dict(property=self.prop, tier=TIER if THOROUGH else "quick",
                  seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - T0, 2),
                  violations=len(fresh))
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        if fresh:
            rp = os.path.join(evd, "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump([dict(what=w, replay=r) for w, r in fresh[:50]], f,
                          ensure_ascii=False, indent=1)
            for w, r in fresh[:8]:
                print("  " + w[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.exit(1)
        log("%s held" % self.prop)
        sys.exit(0)


def known_findings(prop):
    """Texts that identify open findings of a property."""
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"open: property=(\S+) match=\[(.*?)\]", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out
