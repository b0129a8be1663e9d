"""Checks of syllables: C16, C17, C18, C23, C25, C28."""
import itertools

import corpus as c
from readings import *

INIT, SEC, VOW, FIN, TON = ("kcgjJydtTnbpPfmrlwsh?", "_rlw",
                            "aAiIvVuUeExXyYzZtToOcCwW", "_ktpgnmyw", "01234")
CODES = ["".join(t) for t in itertools.product(INIT, SEC, VOW, FIN, TON)]


def cfg(aspect):
    return """CONSTANT Aspect = "%s"
SPECIFICATION Spec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
""" % aspect


def run_cmds(exe, cmds, extra=None):
    """Answers of drv-syl, with extra(command) added to each."""
    def crash(line, why):
        f = line.split(" ")
        return json.dumps(dict(k=f[0], a=f[1:], x=why[:200]))
    k = min(JOBS, max(1, len(cmds) // 3000 + 1))
    parts = [cmds[j::k] for j in range(k)]
    res = parallel(lambda p: run_lines([exe], p, crash=crash), parts)
    out = [None] * len(cmds)
    for j, x in enumerate(res):
        out[j::k] = x
    if extra:
        out = [r if r is None else json.dumps(json.loads(r) | extra(m))
               for r, m in zip(out, cmds)]
    return out


def C16():
    chk = Check("C16")
    d = build("drv-syl")
    r = rng("C16")
    cmds = ["N " + x for x in CODES]
    cmds += ["N %s@%d" % (r.choice(CODES), r.randint(-999, 9999)) for _ in range(4000)]
    lits = ["x", " ", "1", "ฯ", "ๆ", "(", ")", "()", "é", "中", "😀", "ab c", '"', "\\",
            "'", "-", ",", "@", "a@3", "ก", "​", "\t"]
    lits += ["".join(chr(r.choice([r.randint(33, 126), r.randint(0xA0, 0x2FF),
                                   r.randint(0xE01, 0xE5B), r.randint(0x4E00, 0x9FFF),
                                   r.randint(0x1F300, 0x1F5FF)]))
                     for _ in range(r.randint(1, 8))) for _ in range(2000)]
    # every character, and every length around the sizes of buffers
    bmp = [chr(x) for x in range(0x10000) if not 0xD800 <= x < 0xE000]
    lits += ["".join(bmp[k:k + 64]) for k in range(0, len(bmp), 64)] + bmp[:0x300]
    lits += ["".join(r.choice("aé中😀ก)(") for _ in range(n))
             for n in list(range(9, 70)) + [b + k for b in (127, 255, 511, 1023, 4095)
                                            for k in (0, 1, 2)]]
    cmds += ["L %s %d" % (x.encode().hex(), r.choice([r.randint(1, 99), r.randint(100, 99999)]))
             for x in lits]
    cmds.append("B")

    def corrupt(x):
        if x["k"] != "N":
            return []
        return [dict(x, p=x["p"] + "x"), dict(x, o=x["o"][:-1]),
                dict(x, s=x["s"].replace(x["s"][0], "#")), dict(x, r=x["r"] + "0")]
    conform(chk, "all syllables", "TraceSyl", cfg("tables"), cmds,
            lambda m: run_cmds(d + "/drv-syl", m), corrupt=corrupt)
    chk.cov["exhaustive"] = True
    chk.finish()


def C17():
    chk = Check("C17")
    d = build("drv-syl")
    r = rng("C17")
    cmds = ["N " + x for x in CODES]
    cmds += ["N %s@%d" % (r.choice(CODES), r.randint(-999, 9999)) for _ in range(4000)]

    def corrupt(x):
        if not x["a"][0].startswith("k_A") or x["a"][0][3] in "ktp":
            return []
        return [dict(x, u=x["u"][:-1]), dict(x, u=[0x0E02] + x["u"][1:]),
                dict(x, u=[])]
    recs = conform(chk, "all syllables", "TraceSyl", cfg("thai"), cmds,
                   lambda m: run_cmds(d + "/drv-syl", m), corrupt=corrupt)
    chk.cov["exhaustive"] = True
    chk.finish()


def some_codes(r, n):
    return [r.choice(CODES) for _ in range(n)]


def desc(items):
    return ",".join(x if e is None else "%s@%d" % (x, e) for x, e in items)


def some_end(r):
    k = r.randint(0, 9)
    if k == 0:
        return None
    if k < 6:
        return r.randint(0, 20)
    if k < 8:
        return r.randint(0, 9999)
    p = r.randint(0, 40)
    return -(p * 100 + p + r.randint(1, 5)) - r.choice([0, 0, 50])


def C23():
    chk = Check("C23")
    d = build("drv-syl")
    r = rng("C23")
    want = {}

    def pairs(items):
        return [[x, -1 if e is None else e] for x, e in items]

    for x in CODES:
        want["N " + x] = dict(n=-1)
    for x in some_codes(r, 20000):
        e = r.choice([r.randint(0, 99), r.randint(100, 99999), -r.randint(1, 9999)])
        want["N %s@%d" % (x, e)] = dict(n=e)
    for e in (2 ** 31 - 1, -2 ** 31, 65535, 65536, -32769, 10 ** 9):
        for x in some_codes(r, 20):
            want["N %s@%d" % (x, e)] = dict(n=e)
            want["K %s %d" % (x, e)] = dict(n=e)
    for k in (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400):
        items = [(x, some_end(r)) for x in some_codes(r, k)]
        want["S " + desc(items)] = dict(d=pairs(items))
        want["A " + desc(items)] = dict(d=pairs(items))
        want["H %s %d" % (desc(items), k)] = dict(d=pairs(items), off=k)
        want["P %s %s" % (desc(items[:k // 2]), desc(items))] = dict(
            d=pairs(items[:k // 2]), d2=pairs(items))
    for e in range(-150, 1200):
        want["N %s@%d" % (r.choice(CODES), e)] = dict(n=e)
    for x in some_codes(r, 3000):
        e = r.randint(-2000, 9999)
        want["K %s %d" % (x, e)] = dict(n=e)
    # every component letter, whatever the other ones
    for f, comps in enumerate((INIT, SEC, VOW, FIN, TON)):
        for ch in comps:
            for _ in range(20):
                x = r.choice(CODES)
                x = x[:f] + ch + x[f + 1:]
                want["K %s 3" % x] = dict(n=3)
    for _ in range(40000 if THOROUGH else 8000):
        items = [(x, some_end(r)) for x in some_codes(r, r.choice([1, 1, 2, 3, 4, 8, 30]))]
        more = [(x, some_end(r)) for x in some_codes(r, r.choice([1, 2, 5]))]
        off = r.choice([0, 1, 2, 3, r.randint(4, 99), r.randint(100, 3000)])
        want["S " + desc(items)] = dict(d=pairs(items))
        want["A " + desc(items)] = dict(d=pairs(items))
        want["H %s %d" % (desc(items), off)] = dict(
            d=[[x, -1 if e is None else e] for x, e in items], off=off)
        want["P %s %s" % (desc(items), desc(more))] = dict(d=pairs(items), d2=pairs(more))
    cmds = list(want)

    def corrupt(x):
        if x["k"] == "H" and len(x["d"]) > 1 and x["off"] > 0:
            return [dict(x, off=x["off"] + 1), dict(x, l=x["l"][:-1]), dict(x, e=x["e"] + 1)]
        return []
    conform(chk, "codes", "TraceSyl", cfg("codes"), cmds,
            lambda m: run_cmds(d + "/drv-syl", m, lambda c: want[c]), corrupt=corrupt,
            counts=lambda rs: dict(lists=sum('"d"' in x for x in rs)))
    chk.finish()


def universe(r, nsyl, nstr, nseq):
    """One line for drv-order: syllables that differ little from one another."""
    base = r.choice(CODES)
    pool = [INIT, SEC, VOW, FIN, TON]
    syls = []
    while len(syls) < nsyl:
        k = r.randint(0, 9)
        if k < 2:
            lit = "".join(r.choice(["a", "b", "ก", "ab", " ", "😀", "é", "1"])
                          for _ in range(r.randint(1, 3)))
            s = "=" + lit.encode().hex()
        elif k < 4:
            s = r.choice(CODES)
        elif k < 5 and r.randint(0, 1):
            s = "*"
        else:
            f = r.randint(0, 4)
            s = base[:f] + r.choice(pool[f]) + base[f + 1:]
        syls.append("%s@%d" % (s, r.choice([-1, 1, 1, 2, 3, 10, -102])))
        if r.randint(0, 3) == 0 and len(syls) < nsyl:
            syls.append("%s@%d" % (s, r.choice([1, 2, 3, 4])))
    strs = [()]
    few = [r.randint(1, nsyl) for _ in range(3)] + [nsyl, nsyl - 1]
    while len(strs) < nstr:
        s = tuple(r.choice(few) for _ in range(r.randint(1, 3)))
        strs.append(s)
    seqs = []
    while len(seqs) < nseq:
        q = [r.randint(1, nstr) for _ in range(r.randint(1, 6))]
        for _ in range(3):
            seqs.append(tuple(q))
            r.shuffle(q)
    return "%s\t%s\t%s" % (" ".join(syls),
                           " ".join(".".join(map(str, s)) or "-" for s in strs),
                           " ".join(".".join(map(str, s)) for s in seqs))


def long_universe(r):
    """Long literals and strings that differ late, and large collections."""
    lit = "".join(r.choice("abก😀") for _ in range(r.choice([15, 40, 130])))
    lits = [lit, lit[:-1], lit + "a", lit[:-1] + "z", "b" + lit[1:], lit[:8]]
    syls = ["=%s@%d" % (x.encode().hex(), r.choice([1, 2])) for x in lits]
    syls += ["%s@%d" % (x, r.choice([1, 2, 70000])) for x in r.sample(CODES, 4) + ["*"]]
    n = len(syls)
    strs, few = [], r.sample(range(1, n + 1), 3)
    stem = [r.choice(few) for _ in range(r.choice([2, 9, 33]))]
    while len(strs) < 24:
        k = r.choice([0, 1, 2, 3])
        s = stem[:len(stem) - k] + [r.randint(1, n) for _ in range(r.randint(0, 3))]
        strs.append(s)
    seqs = []
    for _ in range(2):
        q = [r.randint(1, 24) for _ in range(40)]
        for _ in range(3):
            seqs.append(list(q))
            r.shuffle(q)
    return "%s\t%s\t%s" % (" ".join(syls), " ".join(".".join(map(str, s)) or "-" for s in strs),
                           " ".join(".".join(map(str, s)) for s in seqs))


def component_universe(r, f):
    """All values of one component, at two positions."""
    base = r.choice(CODES)
    syls = ["%s%s%s@%d" % (base[:f], x, base[f + 1:], e)
            for x in (INIT, SEC, VOW, FIN, TON)[f] for e in (1, 2)]
    n = len(syls)
    strs = ["-"] + [str(i) for i in range(1, n + 1, 3)]
    return "%s\t%s\t%s" % (" ".join(syls), " ".join(strs), "1.2 2.1")


def C18():
    chk = Check("C18")
    d = build("drv-order")
    r = rng("C18")
    lines = [component_universe(r, f) for f in range(5) for _ in range(4)]
    lines += [universe(r, 10, 12, 9) for _ in range(8000 if THOROUGH else 3000)]
    lines += [long_universe(r) for _ in range(600 if THOROUGH else 80)]

    def run(ls):
        def crash(line, why):
            return json.dumps(dict(x=why[:200]))
        k = min(JOBS, len(ls) // 100 + 1)
        res = parallel(lambda p: run_lines([d + "/drv-order"], p, crash=crash),
                       [ls[j::k] for j in range(k)])
        out = [None] * len(ls)
        for j, x in enumerate(res):
            out[j::k] = x
        return out

    def corrupt(x):
        if len(x["f"]) < 2 or len(x["f"][0]) < 2:
            return []
        m = [list(l) for l in x["m"]]
        m[0][1] |= 12
        m[1][0] |= 12
        n = [list(l) for l in x["n"]]
        n[1][1] ^= 1
        return [dict(x, f=[x["f"][0][::-1]] + x["f"][1:]),
                dict(x, f=[x["f"][0][1:]] + x["f"][1:]),
                dict(x, f=[x["f"][0][:1] + x["f"][0]] + x["f"][1:]),
                dict(x, n=n), dict(x, m=m)]
    conform(chk, "orders", "TraceOrder",
            "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n",
            lines, run, corrupt=corrupt,
            counts=lambda rs: dict(
                pairs=sum(len(json.loads(x).get("m", [])) ** 2
                          + len(json.loads(x).get("n", [])) ** 2 for x in rs),
                insertion_sequences=sum(len(json.loads(x).get("q", [])) for x in rs)))
    chk.finish()


def C25():
    chk = Check("C25")
    res = tlc("OrthoLaws", "SPECIFICATION Spec\n" + "".join(
        "INVARIANT %s\n" % x for x in ("Sounded", "Paired", "Stops", "DeadTones", "Unmarked",
                                       "Marked", "AllTones", "Length"))
        + "CHECK_DEADLOCK FALSE\n", workers=JOBS, heap="4g")
    chk.model("laws of Thai spelling", res)
    d = build("drv-ortho")

    def run(cmds):
        def crash(line, why):
            f = line.split(" ")
            return json.dumps(dict(k=f[0], c=f[1], x=why[:200]))
        k = min(JOBS, len(cmds) // 3000 + 1)
        out = [None] * len(cmds)
        for j, x in enumerate(parallel(lambda p: run_lines([d + "/drv-ortho"], p, crash=crash),
                                       [cmds[j::k] for j in range(k)])):
            out[j::k] = x
        return out
    tcfg = "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n"
    # what the specification supposes about characters is what libthai says
    rej, _, _ = judge("TraceOrtho", tcfg, run(["K %d" % x for x in range(0xE01, 0xE5C)
                                               if not 0xE3A < x < 0xE40]))
    if rej:
        die("classes of characters differ from libthai's: %s" % rej[:5])
    cons = [x for x in range(0xE01, 0xE2F) if x not in (0xE24, 0xE26)]
    cmds = ["L %d" % x for x in cons]
    cmds += ["T %d %s %s" % t for t in itertools.product(cons, VOW, FIN)]
    cmds += ["I " + x for x in INIT] + ["F " + x for x in FIN] + ["M " + x for x in TON]

    def corrupt(x):
        if x["k"] != "T" or "x" in x:
            return []
        lett = dict(k="L", c=0xE01, a="M", s="k", e="k")
        return ([dict(x, t=x["t"][:j] + "*" + x["t"][j + 1:]) for j in range(5)]
                + [dict(lett, a="H"), dict(lett, s="c"), dict(lett, e="t"),
                   dict(k="I", c="k", r="c"), dict(k="F", c="k", r="t"), dict(k="M", c="0", r="1")])
    conform(chk, "tables", "TraceOrtho", tcfg, cmds, run, corrupt=corrupt)
    chk.cov["exhaustive"] = True
    chk.assume.append("Which class a letter has and which tones follow is taken from "
                      "Thai grammars; both are written down in the Ortho module.")
    chk.finish()


# ------------------------------------------------------- strings as values --
LITS = ["a", "ab", "ก", "😀", " ", "a\0b", "\0", "abcdefg", "abcdefgh", "-" * 15 + "x",
        "0123456789" * 7, "é" * 130, "x" * 300]
SMALL = ["k_a_0", "k_a_1", "krAn2", "?_om4"]


def str_ops():
    """Every kind of operation on every place."""
    ops = []
    for x in (1, 2):
        ops += ["sn:%d" % x, "sd:%d:k_a_0@2" % x, "sd:%d:krAn2@4,k_a_1@-203,k_a_0" % x,
                "sh:%d:3" % x, "sh:%d:0" % x, "se:%d:1:7" % x, "se:%d:2:-304" % x,
                "yk:%d:k_a_1:5" % x, "yl:%d:6162:2" % x, "yp:%d:9" % x, "yp:%d:-102" % x,
                "yg:%d:1:1" % x, "yg:%d:2:2" % x]
        for y in (1, 2):
            ops += ["s%s:%d:%d" % (o, x, y) for o in "kSy=+a"]
            ops += ["y%s:%d:%d" % (o, x, y) for o in "y="]
            if x != y:
                ops.append("sm:%d:%d" % (x, y))
    return ops


def str_op(r, n, mx=12):
    """A random operation; n: lengths of the strings, kept up to date."""
    x, y = r.randint(1, 3), r.randint(1, 3)
    code = r.choice([r.choice(SMALL), r.choice(CODES)])
    e = r.choice([1, 2, 5, -1, -102, -304, r.randint(0, 9999), -r.randint(1, 5000)])
    if r.random() < .35:
        return r.choice(["yk:%d:%s:%d" % (x, code, e),
                         "yl:%d:%s:%d" % (x, r.choice(LITS).encode().hex(), e),
                         "yy:%d:%d" % (x, y), "y=:%d:%d" % (x, y), "yp:%d:%d" % (x, e),
                         "yg:%d:%d:%d" % (x, y, r.randint(1, 4))])
    op = r.choice("ndkym=S+++aahhe")
    if op == "m" and x == y or op == "+" and n[x] + n[y] > mx or n[x] > mx and op == "a":
        op = "n"
    if op == "n":
        n[x] = 0
        return "sn:%d" % x
    if op == "d":
        items = [(r.choice(SMALL + [r.choice(CODES)]), some_end(r))
                 for _ in range(r.randint(1, 4))]
        n[x] = len(items)
        return "sd:%d:%s" % (x, desc(items))
    if op == "h":
        return "sh:%d:%d" % (x, r.choice([0, 1, 2, 7, r.randint(8, 300)]))
    if op == "e":
        return "se:%d:%d:%d" % (x, r.randint(1, 4), e)
    n[x] = {"k": 1, "S": 1, "y": n[y], "m": n[y], "=": n[y], "+": n[x] + n[y],
            "a": n[x] + 1}[op]
    if op == "m":
        n[y] = 0
    return "s%s:%d:%d" % (op, x, y)


def C28():
    chk = Check("C28")
    chk.model("syllables and strings", tlc("StringMachine", """CONSTANTS
  Letters = {"a", "b"}
  Ends <- TheEnds
  Places = {1, 2}
  MaxLen = %d
  MaxOps = %d
SPECIFICATION Spec
INVARIANT Shifting
PROPERTY Local
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
""" % (4 if THOROUGH else 3, 6 if THOROUGH else 5), workers=JOBS, heap="8g"))
    d = build("drv-str")
    r = rng("C28")
    ops = str_ops()
    start = ("yk:1:krAn2:3 yl:2:c3a9:4 sd:1:k_a_0@2,?_om4@-102,k_a_1@9 sk:2:1 sd:3:k_a_0@5 "
             "sa:2:2")
    lines = [start + " " + " ".join(h) for n in (1, 2)
             for h in itertools.product(ops, repeat=n)]
    for _ in range(20000 if THOROUGH else 4000):
        n = [0] * 4
        lines.append(" ".join(str_op(r, n) for _ in range(r.randint(8, 40))))
    for _ in range(200 if THOROUGH else 40):
        items = [(r.choice(CODES), some_end(r)) for _ in range(r.choice([20, 70, 140]))]
        n = [0, len(items), 0, 0]
        lines.append(" ".join(["sd:1:" + desc(items)]
                              + [str_op(r, n, 300) for _ in range(r.choice([20, 60]))]))

    def run(ls):
        k = min(JOBS, len(ls) // 100 + 1)
        res = parallel(lambda p: run_lines(
            [d + "/drv-str"], p, crash=lambda l, why: json.dumps(dict(h=[], x=why[:200]))),
            [ls[j::k] for j in range(k)])
        out = [None] * len(ls)
        for j, x in enumerate(res):
            out[j::k] = x
        return out

    def corrupt(x):
        h = x["h"]
        for k in range(len(h) - 1, -1, -1):
            s = h[k]
            cs = [g for g in s["g"] if g[0] == "s" and len(g[2][0]) > 1]
            if cs:
                g = cs[0]
                rest = [e for e in s["g"] if e is not g]
                syls, end = g[2]

                def put(**new):
                    return dict(x, h=h[:k] + [dict(s, **new)] + h[k + 1:])

                def look(v):
                    return put(g=rest + [[g[0], g[1], v]])
                return [look([syls[1:], end]), look([syls, end + 1]),
                        look([[[syls[0][0], syls[0][1] + 1]] + syls[1:], end]),
                        put(g=rest), put(q=[[1 - v for v in w] for w in s["q"]]),
                        put(w=[[1 - v for v in w] for w in s["w"]])]
        return []
    conform(chk, "histories", "TraceStrings",
            "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n",
            lines, run, corrupt=corrupt, sample=False,
            counts=lambda rs: dict(operations=sum(x.count('"p"') for x in rs)))
    chk.cov["samples"].append(dict(history=lines[-1][:400]))
    chk.finish()
