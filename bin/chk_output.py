"""Checks of output: C14, C15."""
import itertools

import corpus as c
from chk_syl import CODES
from readings import *

GCFG = """CONSTANT Aspect = "%s"
SPECIFICATION Spec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
"""


def decode(rec):
    """Take the output texts of a record apart: lines of a delimited output,
    the value of a JSON document."""
    def one(o, single):
        f, nt, d, text = o
        if f in "jg":
            try:
                v = json.loads(text)
            except ValueError:
                return None
            return [f, nt, d, v]
        if single:
            return [f, nt, d, text]
        if text and not text.endswith("\n"):
            return None
        return [f, nt, d, text.split("\n")[:-1]]
    if "out" not in rec:
        return rec
    res = dict(rec, out=[one(o, False) for o in rec["out"]])
    if "lo" in rec:
        res["lo"] = [one(o, False) for o in rec["lo"]]
    if "one" in rec:
        res["one"] = [[one(o, True) for o in x] for x in rec["one"]]
    for old, new in zip(rec["out"] + rec.get("lo", []) + sum(rec.get("one", []), []),
                        res["out"] + res.get("lo", []) + sum(res.get("one", []), [])):
        if new is None:
            return dict(k=rec["k"], x="output %s of %s is not well-formed: %r"
                        % (old[0], old[1], old[3][:300]))
    return res


def runner(exe, args=()):
    def run(lines):
        def crash(line, why):
            return json.dumps(dict(k="g", x=why[:200]))
        k = min(JOBS, len(lines) // 100 + 1)
        res = parallel(lambda p: run_lines([exe] + list(args), p, crash=crash),
                       [lines[j::k] for j in range(k)])
        out = [None] * len(lines)
        for j, x in enumerate(res):
            out[j::k] = x
        return [None if x is None or x.startswith('{"big"') else
                json.dumps(decode(json.loads(x)), ensure_ascii=False) for x in out]
    return run


LITS = ["a", "ab", '"', "\\", "\\n", "(", ")", "-", ",", " ", "é", "中", "😀", "]", "[",
        '","', "\x01", "\t", "\x7f", "ฯ", "ๆ", "{}", "\\u0041", "/", "'", "ng"]


def some_label(r, end, pool):
    if r.randint(0, 7) == 0:
        return "=%s@%d" % (r.choice(LITS).encode().hex(), end)
    return "%s@%d" % (r.choice(pool), end)


def label_pool(r):
    """Few syllables, so that they meet; with vowel and ng initials."""
    pool = [r.choice(CODES) for _ in range(3)]
    pool += ["?" + r.choice(CODES)[1:], "g" + r.choice(CODES)[1:]]
    p = pool[0]
    pool.append(p[:4] + r.choice("01234"))
    pool.append(p[:3] + r.choice("_gn") + p[4])
    return r.sample(pool, r.choice([2, 3, 5, 7]))


def some_graph(r, mx=7):
    """A random acyclic graph where node 0 reaches all."""
    n = r.randint(1, mx)
    nodes = [0] + sorted(r.sample(range(1, r.choice([30, 30, 30, 300, 20000])), n))
    if r.randint(0, 3) == 0:            # half syllables have negative nodes
        for k in range(1, n):
            if r.randint(0, 2) == 0:
                nodes[k] = -nodes[k] * r.choice([10, 101, 1000])
    pool = label_pool(r)
    edges = []
    dens = r.choice([1, 1, 2, 3])
    for k in range(1, n + 1):
        ins = r.sample(range(k), min(k, r.randint(1, dens)))
        for f in ins:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                edges.append("%d:%d:%s" % (nodes[f], nodes[k],
                                           some_label(r, nodes[k], pool)))
    # join loose ends, mostly
    if r.randint(0, 4):
        for k in range(1, n):
            if not any(e.startswith("%d:" % nodes[k]) for e in edges):
                edges.append("%d:%d:%s" % (nodes[k], nodes[n],
                                           some_label(r, nodes[n], pool)))
    r.shuffle(edges)
    return "g " + " ".join(edges)


def ladder(r):
    """Parallel runs of few labels between shared nodes, so that the same string
    comes with different inner positions."""
    pool = label_pool(r)[:r.choice([1, 1, 2])]
    edges, at = [], 0
    for _ in range(r.randint(1, 2)):
        runs = [r.choice([1, 2, 3, 3, 4]) for _ in range(r.randint(2, 4))]
        n = sum(k - 1 for k in runs)
        inner = list(range(at + 1, at + 1 + n))
        r.shuffle(inner)
        end = at + 1 + n
        for k in runs:
            mid, inner = sorted(inner[:k - 1]), inner[k - 1:]
            for f, t in zip([at] + mid, mid + [end]):
                edges.append("%d:%d:%s" % (f, t, "%s@%d" % (r.choice(pool), t)))
        at = end
    r.shuffle(edges)
    return "g " + " ".join(edges)


def wide_graph(r):
    """Many parallel pieces between two points, among long unbranched runs."""
    edges, at = [], 0
    width = [r.choice([1, 17, 33, 60])]
    while r.randint(0, 2) and len(width) < 4:
        width.append(r.choice([1, 1, 2, 3]))
    r.shuffle(width)
    for w in width:
        if w * len([x for x in width if x > 1]) > 1 or r.randint(0, 1):
            for x in r.sample(CODES, w):
                edges.append("%d:%d:%s@%d" % (at, at + 1, x, at + 1))
            at += 1
        for _ in range(r.choice([0, 1, 5, 20])):
            edges.append("%d:%d:%s" % (at, at + 1, some_label(r, at + 1, CODES)))
            at += 1
    if r.randint(0, 1):
        r.shuffle(edges)
    return "g " + " ".join(edges)


def comb(r):
    """A long run that can be left at several points for the end, or that
    several runs from the beginning join."""
    n = r.choice([6, 12, 25])
    edges = ["%d:%d:%s" % (k, k + 1, some_label(r, k + 1, CODES)) for k in range(n)]
    for k in r.sample(range(n), min(n, r.choice([1, 3, 8]))):
        f, t = (k, n + 1) if r.randint(0, 1) else (0, k + 1)
        edges.append("%d:%d:%s" % (f, t, some_label(r, t, CODES)))
    r.shuffle(edges)
    return "g " + " ".join(edges)


def long_list(r):
    pool = label_pool(r)
    strs = []
    for _ in range(r.choice([1, 3, 17, 40])):
        strs.append(",".join("B" if r.randint(0, 9) == 0 else some_label(r, k + 1, pool)
                             for k in range(r.choice([1, 2, 9, 33, 70]))))
    return "l " + ";".join(strs)


def long_literal_list(r, n):
    t = "".join(r.choice(["a", "é", "中", "😀", '"', "\\", "\x01", "ก"]) for _ in range(n))
    return "l =%s@1,?_a_0@2;k_a_0@1,=%s@2" % (t.encode().hex(), t[:-1].encode().hex() or "61")


def small_graphs(n, labels, mult):
    """All rooted graphs over nodes 0..n with the given labels."""
    cand = [(f, t, l) for f in range(n) for t in range(f + 1, n + 1) for l in labels]
    res = []
    for k in range(1, len(cand) + 1):
        for es in itertools.combinations(cand, k):
            if all(f == 0 or any(e[1] == f for e in es) for f, _, _ in es):
                res.append("g " + " ".join("%d:%d:%s@%d" % (f, t, l, t) for f, t, l in es))
    return res[::mult]


def some_list(r):
    pool = label_pool(r) + ["B"]
    strs = []
    for _ in range(r.randint(0, 4)):
        s = []
        for k in range(r.choice([0, 1, 1, 2, 3, 5])):
            s.append("B" if r.randint(0, 4) == 0 else some_label(r, k + 1, pool[:-1]))
        strs.append(",".join(s) or "-")
    return "l " + ";".join(strs)


def built_list(r, mx=6):
    """Strings whose pieces end at growing positions."""
    n = r.randint(1, mx)
    pool = label_pool(r)
    strs = []
    for _ in range(r.randint(0, 5)):
        ends = sorted(r.sample(range(1, n), r.randint(0, n - 1))) + [n]
        if r.randint(0, 3) == 0 and len(ends) > 1:
            ends[0] *= -10
        strs.append(",".join(some_label(r, e, pool) for e in ends))
    if strs and r.randint(0, 4) == 0:
        strs.append(r.choice(strs))
    return "b " + ";".join(strs)


def words(r, n):
    return ["w " + w.encode().hex() for w in c.words(r, n)]


def corrupt_flat(x):
    if x.get("k") != "g":
        return []
    out = x["out"]
    if len(out[0][3]) < 2 or len(set(out[0][3])) < 2:
        return []

    def put(j, v):
        return dict(x, out=out[:j] + [out[j][:3] + [v]] + out[j + 1:])
    return [put(0, out[0][3][1:]), put(1, out[1][3] + out[1][3][:1]),
            put(2, [out[2][3][0] + ","] + out[2][3][1:]),
            put(6, [out[6][3][0].capitalize() + "z"] + out[6][3][1:]),
            put(9, out[9][3][:-1]), put(9, [out[9][3][0] + ["x"]] + out[9][3][1:])]


def corrupt_list(x):
    if len(x.get("st", [])) < 2 or min(map(len, x["st"])) < 2 or x["out"][0][3][0] == x["out"][0][3][1]:
        return []
    out, one = x["out"], x["one"]
    return [dict(x, out=[out[0][:3] + [out[0][3][::-1]]] + out[1:]),
            dict(x, out=out[:8] + [out[8][:3] + [out[8][3][1:]]] + out[9:]),
            dict(x, one=[[one[0][0][:3] + [one[0][0][3] + "-"]] + one[0][1:]] + one[1:])]


def corrupt_group(x):
    if x.get("k") != "g":
        return []
    lat = x["lat"]
    if len(lat) < 1 or not any(len(f) > 1 for ch in lat for f in ch):
        return []
    big = [[[f[:-1] if len(f) > 1 else f for f in ch] for ch in lat],
           [[f + f[:1] for f in ch] for ch in lat],
           lat + lat[:1], lat[1:]]
    out = x["out"]
    return [dict(x, lat=v) for v in big] + [
        dict(x, up=False), dict(x, e2=x["e2"][1:]), dict(x, fd=x["fd"][1:]),
        dict(x, fd=[x["fd"][0][:2] + [99] + x["fd"][0][3:]] + x["fd"][1:]),
        dict(x, out=out[:-1] + [out[-1][:3] + [out[-1][3][1:]]])]


def lines_for(salt, tiny):
    r = rng(salt)
    n = 4 if THOROUGH else 1
    graphs = ["g "] + [some_graph(r, r.choice([3, 5, 7, 9])) for _ in range(6000 * n)]
    graphs += [ladder(r) for _ in range(1200 * n)]
    graphs += [wide_graph(r) for _ in range(60 * n)] + [comb(r) for _ in range(100 * n)]
    graphs += small_graphs(2, ["k_a_0", "?_On1", "g_i_2"], 1)
    graphs += small_graphs(3, ["k_a_0", "grA_1"], 1 if THOROUGH else tiny)
    return r, list(dict.fromkeys(graphs))


def C14():
    chk = Check("C14")
    res = tlc("GroupingMachine", """CONSTANTS
  N = 3
  Labels = {"a", "b"}
SPECIFICATION Spec
INVARIANTS SameDenotation Confluent ChainsDenote Maximal
PROPERTY Done
CHECK_DEADLOCK FALSE
""", workers=JOBS, heap="4g")
    chk.model("grouping in any order", res)
    if THOROUGH:
        res = tlc("GroupingMachine", """CONSTANTS
  N = 4
  Labels = {"a"}
SPECIFICATION Spec
INVARIANTS SameDenotation Confluent ChainsDenote Maximal
PROPERTY Done
CHECK_DEADLOCK FALSE
""", workers=JOBS, heap="4g")
        chk.model("grouping of larger graphs", res)
    d = build("drv-out", "gen-lookup-dict")
    r, graphs = lines_for("C14", 4)
    run = runner(d + "/drv-out")
    conform(chk, "graphs", "TraceOut", GCFG % "group", graphs, run,
            corrupt=corrupt_group, sample=False)
    ws = words(r, 12000 if THOROUGH else 3000)
    conform(chk, "graphs of words", "TraceOut", GCFG % "group", ws, run,
            corrupt=corrupt_group, sample=False,
            show=lambda l: bytes.fromhex(l[2:]).decode())
    bs = ["b "] + [built_list(r, 30) for _ in range(100)] + [built_list(r) for _ in range(6000 if THOROUGH else 2500)]

    def corrupt_built(x):
        if len(x.get("st", [])) < 2 or len(x["st"][-1]) < 2 or len(x["lo"][0][3]) < 1 \
                or x["st"][-1][0] in [s[0] for s in x["st"][:-1]]:
            return []
        lo = x["lo"]
        return [dict(x, st=x["st"][:-1]), dict(x, lo=[lo[0][:3] + [lo[0][3][1:]]] + lo[1:])]
    conform(chk, "graphs built from lists", "TraceOut", GCFG % "group",
            list(dict.fromkeys(bs)), run, corrupt=corrupt_built, sample=False)
    dic = compile_dict(d + "/gen-lookup-dict", shipped_entries())
    ws = ["w " + w.encode().hex() for w in shipped_entries()]
    conform(chk, "graphs of shipped words", "TraceOut", GCFG % "group", ws,
            runner(d + "/drv-out", ["-n", dic]), sample=False,
            show=lambda l: bytes.fromhex(l[2:]).decode())
    chk.finish()


def C15():
    chk = Check("C15")
    d = build("drv-out")
    r, graphs = lines_for("C15", 8)
    run = runner(d + "/drv-out")
    conform(chk, "graphs", "TraceOut", GCFG % "flat", graphs, run, corrupt=corrupt_flat,
            sample=False)
    ws = words(r, 12000 if THOROUGH else 3000)
    conform(chk, "graphs of words", "TraceOut", GCFG % "flat", ws, run,
            corrupt=corrupt_flat, sample=False,
            show=lambda l: bytes.fromhex(l[2:]).decode())
    lists = ["l ", "l -", "l -;-", "l B", "l B,B", "l k_a_0@1,B,?_a_0@2",
             "l B,?_a_0@1", "l ?_a_0@1,B"]
    # every character that may need care, alone and among others
    for x in list(range(0, 0x180)) + [0x7FF, 0x800, 0x2028, 0x2029, 0xD7FF, 0xE000,
                                      0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]:
        for t in (chr(x), "a" + chr(x) + "b"):
            lists.append("l =%s@1,k_a_0@2" % t.encode().hex())
    # special ones next to each ASCII character, and all of the BMP
    for x in list(range(32)) + [34, 39, 47, 92, 127, 0x80, 0xFF]:
        t = "".join(chr(x) + chr(y) for y in range(128)) + chr(x)
        lists.append("l =%s@1,k_a_0@2" % t.encode().hex())
    bmp = [x for x in range(0x180, 0x10000) if not 0xD800 <= x < 0xE000] \
        + sorted(r.sample(range(0x10000, 0x110000), 2000))
    for k in range(0, len(bmp), 40):
        t = "".join(map(chr, bmp[k:k + 40]))
        lists.append("l =%s@1,k_a_0@2" % t.encode().hex())
    lists += [long_list(r) for _ in range(300 if THOROUGH else 60)]
    lists += [long_literal_list(r, n) for n in (15, 16, 17, 63, 64, 65, 127, 128, 129, 255,
                                                256, 257, 511, 512, 513, 1024, 1025)]
    lists += [some_list(r) for _ in range(16000 if THOROUGH else 6000)]
    conform(chk, "lists", "TraceOut", GCFG % "flat", list(dict.fromkeys(lists)), run,
            corrupt=corrupt_list, sample=False)
    chk.finish()
