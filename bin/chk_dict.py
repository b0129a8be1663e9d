"""Checks of dictionaries: C11, C12, C26."""
import itertools

import corpus as c
from chk_syl import CODES
from readings import *

TRACECFG = "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n"
THAI = [chr(x) for x in range(0xE01, 0xE5C)]
MALFORMED = [
    b"\xe0\xb8\x81", b"", b"\t", b"a\tb", b"\xe0\xb8\tx", b"\xe0\tx", b"\x81\tx",
    b"\xff\tx", b"\xfe\x81\x81\x81\x81\x81\x81\tx", b"\xe0\xb8\x81a\tx",
    b"\xe0\xb8\x81\xe0\xb8\tx", b"\xe0\xb8\x81.\tx", b"\xe0\xb8\x81 \tx",
    b"\xf0\x9f\x98\x80\tx", b"\xe0\xb8\x80\tx", b"\xe0\xb9\x9c\tx",
    b"\xc3\xa9\tx", b"\xf0\x80\xb8\x81\tx", b"\xf8\x80\x80\xb8\x81\tx",
    b"\xc0\x80\tx", b"\xed\xa0\x80\tx", b"\xe0\xb8\x81 x", b"\xe0\xb8\x81,x",
    b"\xe0\xb8\x81\xe0\xb8\x81", b"\xef\xbb\xbf\xe0\xb8\x81\tx",
]


def some_key(r, alpha):
    return "".join(r.choice(alpha) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])))


def some_data(r):
    k = r.randint(0, 9)
    if k == 0:
        return r.choice(["", "x", "\t", "a\tb", "ก", " ", ";", "x" * 60])
    return ";".join(",".join("%s@%d" % (r.choice(CODES), e + 1) for e in range(r.randint(1, 3)))
                    for _ in range(r.choice([1, 1, 2])))


def some_list(r):
    """Bytes of a list and the texts to look up."""
    alpha = r.sample(THAI, r.choice([2, 3, 5, 20])) if r.randint(0, 2) else \
        list("กขคงจรลวอาะิีเแไ่้็์")
    keys = [some_key(r, alpha) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20]))]
    # keys that are beginnings and ends of others
    for k in list(keys):
        if r.randint(0, 2) == 0:
            keys.append(k + some_key(r, alpha))
        if r.randint(0, 3) == 0 and len(k) > 1:
            keys.append(k[:-1])
    r.shuffle(keys)
    lines = [("%s\t%s" % (k, some_data(r))).encode() for k in keys]
    if lines and r.randint(0, 3) == 0:
        lines.append(r.choice(lines).split(b"\t")[0] + b"\tagain")
    lines = [l for l in lines if len(l) <= 254 or r.randint(0, 1)]
    if r.randint(0, 3) == 0:
        lines.insert(r.randint(0, len(lines)), r.choice(MALFORMED))
    if r.randint(0, 9) == 0:
        n = r.choice([200, 253, 254, 255, 256, 300, 509, 510, 511, 600])
        w = "ก" * r.choice([1, 2, 50])
        l = (w + "\t").encode()
        lines.insert(r.randint(0, len(lines)), l + b"y" * max(0, n - len(l)))
    b = b"\n".join(lines)
    if lines and r.randint(0, 4):
        b += b"\n"
    qs = ["".join(keys)] if keys else ["กขค"]
    for _ in range(4):
        parts = [r.choice(keys) + r.choice(["", "", "", "\0"]) if keys and r.randint(0, 1) else
                 some_key(r, alpha + ["a", " ", "😀", ".", "\0"]) for _ in range(r.randint(1, 5))]
        qs.append("".join(parts))
    qs += [x[:-1] for x in keys[:3] if len(x) > 1] + [r.choice(THAI) * 3]
    return b, qs


def long_list(r, n):
    """Many words: the tables of the dictionary have to grow."""
    keys = list(dict.fromkeys(some_key(r, THAI) + some_key(r, THAI[:46]) for _ in range(n)))
    b = b"".join(("%s\t%s\n" % (k, some_data(r))).encode() for k in keys)
    qs = ["".join(r.sample(keys, 12)) for _ in range(6)]
    return b, qs


def heavy_list(r, n, size):
    """Much data: n words with size bytes each."""
    keys = list(dict.fromkeys(some_key(r, THAI) + some_key(r, THAI[:46]) for _ in range(n)))
    b = b"".join((k + "\t" + ("%d;" % j).ljust(size - r.randint(0, 9), r.choice("abc"))).encode()
                 + b"\n" for j, k in enumerate(keys))
    return b, ["".join(r.sample(keys, 12)) for _ in range(4)] + ["".join(keys[:2] + keys[-8:])]


def C11():
    chk = Check("C11")
    d = build("drv-dict", "gen-lookup-dict")
    r = rng("C11")
    items = [(m + e, ["ก"]) for m in MALFORMED for e in (b"\n", b"")]
    good = "กา\tk_A_0@2\n".encode()
    items += [(good + m + b"\n" + "ขา\tc_A_4@2\n".encode(), ["กาขา"]) for m in MALFORMED]
    items += [(b"", ["กขค"]), (good, ["กากา"]), (good[:-1], ["กา"]),
              (good + b"\n", ["กา"])]
    # every line length around the sizes of buffers
    for n in sorted(set(range(240, 270)) | set(range(500, 520)) | {1000, 1023, 1024, 1025}):
        for tail in (b"\n", b"", "\nขา\tc_A_4@2\n".encode()):
            l = "กา\t".encode()
            items.append((good.replace("กา".encode(), "คา".encode()) + l + b"z" * (n - len(l)) + tail,
                          ["กาขาคา"]))
            l = ("ก" * ((n - 4) // 3) + "\t").encode()
            items.append((l + b"z" * (n - len(l)) + tail, ["ก" * 400]))
    # every byte in place of every byte of a word
    l = "กา\tx".encode()
    items += [(l[:k] + bytes([x]) + l[k + 1:] + b"\n", ["กา", "กก"])
              for k in range(6) for x in range(256) if x != 10]
    items += [(l[:3] + bytes(r.choice([0x81, 0xb8, 0xe0, 0xc0, 0xb9, 0xf8, 0xc1, 0xe1, r.randrange(256)])
                             for _ in range(3)).replace(b"\n", b"x") + l[6:] + b"\n", ["กา", "กก"])
              for _ in range(2000 if THOROUGH else 500)]
    # every letter
    items.append(("".join("%s\td%x\n" % (x, ord(x)) for x in THAI).encode(),
                  ["".join(THAI), "".join(chr(x) for x in range(0xE00, 0xE60))]))
    items += [some_list(r) for _ in range(12000 if THOROUGH else 1600)]
    items += [long_list(r, n) for n in ((60, 100, 200, 400, 800, 3000) if THOROUGH else (60, 120, 300, 1200))]
    items += [heavy_list(r, n, k) for n, k in [(140, 235), (300, 225), (330, 200)]
              + ([(700, 220), (1500, 100)] if THOROUGH else [])]
    scratch = tempfile.mkdtemp(dir=tmpdir())

    def run(items):
        hung = []

        def comp(j):
            if len(hung) > 10:
                return 999
            b, qs = items[j]
            src = os.path.join(scratch, "%d.tsv" % j)
            dst = os.path.join(scratch, "%d.dic" % j)
            if os.path.exists(dst):
                os.unlink(dst)
            open(src, "wb").write(b)
            try:
                p = subprocess.run([d + "/gen-lookup-dict", src, dst], timeout=30,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                   env=ENV, cwd=scratch)
                return p.returncode
            except subprocess.TimeoutExpired:
                hung.append(j)
                return 999
        sts = parallel(comp, range(len(items)))
        lines = [os.path.join(scratch, "%d.dic" % j) + "".join(
            " " + q.encode().hex() for q in qs) for j, (b, qs) in enumerate(items)]
        out = run_lines([d + "/drv-dict", "q"], lines,
                        crash=lambda l, why: json.dumps(dict(x=why[:200])))
        res = []
        for (b, qs), st, o in zip(items, sts, out):
            if o is None:
                res.append(None)
                continue
            o = json.loads(o)
            if st < 0 or st == 999:
                o["x"] = "compiler ended with status %d" % st
            res.append(json.dumps(dict(o, b=list(b), st=st)))
        return res

    def corrupt(x):
        q = x.get("q")
        if x.get("st") or not q or len(q[0]["m"]) < 2:
            return []
        m = q[0]["m"]

        def put(v):
            return dict(x, q=[dict(q[0], m=v)] + q[1:])
        return [put(m[1:]), put(m + m[:1]), put([m[0][:2] + [m[0][2] + [1]]] + m[1:]),
                dict(x, st=1), dict(x, ld=False), dict(x, b=x["b"] + [10, 65]),
                dict(x, b=x["b"][:-1] + [10, 0xE0, 9, 10])]
    conform(chk, "word lists", "TraceList", TRACECFG, items, run, corrupt=corrupt,
            show=lambda it: repr(it[0][:300]), sample=False,
            replay=lambda it: dict(list_hex=it[0].hex()),
            counts=lambda rs: dict(refused=sum('"st": 0' not in x for x in rs)))
    chk.cov["samples"].append(dict(list=repr(items[200][0][:200]), queries=items[200][1][:3]))

    # writing fails: the compiler says so; files are limited to fewer bytes
    # than needed, so that nothing outside the scratch directory is written to
    src, out = os.path.join(scratch, "full.tsv"), os.path.join(scratch, "full.dic")
    open(src, "wb").write(good)
    p = subprocess.run(["prlimit", "--core=0", "--fsize=10", d + "/gen-lookup-dict", src, out],
                       env=ENV, cwd=scratch, restore_signals=False,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode == 0:
        chk.violation("compiling where nothing can be written reports success",
                      dict(list_hex=good.hex(), bytes=10))
    chk.finish()


def C12():
    chk = Check("C12")
    res = tlc("Load", """CONSTANTS
  Files = {"a", "b", "c"}
  WordsSize = 3
  Size = 6
SPECIFICATION Spec
INVARIANTS Whole LastLoad AllOrNothing
PROPERTY Ends
CHECK_DEADLOCK FALSE
""", workers=2)
    chk.model("loads cut short anywhere", res)
    d = build("drv-dict", "gen-lookup-dict")
    r = rng("C12")
    ents = [{"กา": "c_A_4@2", "กาน": "k_i_0@1,n_a_2@3;k_u_1@3", "งา": "n_O_3@2"},
            {"กา": "P_Ug2@2", "งาน": "g_o_0@1,n_i_3@3"}, {},
            {w: x for w, x in list(shipped_entries().items())},
            # data of more than 64 KB
            {"กา" + a + b: ";".join("%s@4" % x for x in r.sample(CODES, 28))
             for a in c.CONS[:18] for b in c.CONS[:18]}]
    files = []                          # (path, ok, entries)
    for k, e in enumerate(ents):
        files.append((compile_dict(d + "/gen-lookup-dict", e, "f%d" % k), True, e))
    scratch = tempfile.mkdtemp(dir=tmpdir())

    def put(name, data, ok, e):
        p = os.path.join(scratch, name)
        open(p, "wb").write(data)
        files.append((p, ok, e))
        return len(files)
    whole = [open(p, "rb").read() for p, _, _ in files]
    bad = []
    files.append((os.path.join(scratch, "missing"), False, {}))
    bad.append(len(files))
    os.mkdir(os.path.join(scratch, "dir"))
    files.append((os.path.join(scratch, "dir"), False, {}))
    bad.append(len(files))
    bad.append(put("empty", b"", False, {}))
    bad.append(put("text", b"hello\n", False, {}))
    bad.append(put("list", "กา\tk_A_0@2\n".encode() * 20, False, {}))
    cuts = []
    for k in (0, 1, 2):
        for n in range(len(whole[k])):
            cuts.append((k, n))
    big = len(whole[3])
    step = 1 if THOROUGH else max(1, big // 300)
    cuts += [(3, n) for n in sorted(set(range(0, big, step)) | set(range(big - 200, big)))]
    huge = len(whole[4])
    cuts += [(4, n) for n in sorted({huge - 1 - k for k in (0, 1, 2, 3, 7, 15, 255, 4095, 8191)}
                                    | set(r.sample(range(huge), 400 if THOROUGH else 60)))]
    cutno = [put("cut.%d.%d" % (k, n), whole[k][:n], False, {}) for k, n in cuts]
    # names of many lengths and kinds
    far = []
    for n in [2, 3, 60, 126, 127, 199, 254, 255]:
        far.append(put("x" * n, whole[len(far) % 2], True, ents[len(far) % 2]))
    path = scratch
    for n in (300, 520, 1030, 2050, 4000):
        while len(path) + 201 < n:
            path += "/" + "y" * 200
            os.mkdir(path)
        far.append(put(os.path.join(path, "z" * (n - len(path) - 1)), whole[len(far) % 2], True,
                       ents[len(far) % 2]))
    for x in ("กา.dic", "%s%n", ".dic", "a:b", "a\\b", "a'b\"c", "$x*?", "a,b;c", "d.dic.gz"):
        far.append(put(x, whole[len(far) % 2], True, ents[len(far) % 2]))
        far.append(put(x[:-1] + "é", whole[1][:-1 - len(far)], False, {}))
    # data of more than 8 MB, most of them of words listed again
    lst = os.path.join(scratch, "large.tsv")
    with open(lst, "w") as f:
        f.write(("กา\t" + "k_A_0@2;" * 29 + "\n") * 38000)
        f.writelines("%s\t%s\n" % x for x in ents[0].items())
    files.append((os.path.join(scratch, "large.dic"), True, ents[0]))
    if subprocess.run([d + "/gen-lookup-dict", lst, files[-1][0]]).returncode:
        die("dictionary compiler failed")
    large = [len(files)]
    data = open(files[-1][0], "rb").read()
    large += [put("large.%d" % n, data[:n], False, {}) for n in (len(data) - 1, 1 << 23, 1 << 20)]
    good = [1, 2, 3, 4, 5]
    probes = ["กานงาน", "กากางา", list(ents[3])[0] + "กา", list(ents[4])[-1]]

    hist = []
    for f in cutno:                     # each cut, after none and after a good one
        hist.append([f, 0])
        hist.append([r.choice(good), f])
    allf = good + bad
    for n in (1, 2, 3):
        hist += [list(h) for h in itertools.product([0] + allf, repeat=n)]
    for _ in range(4000 if THOROUGH else 600):
        hist.append([r.choice([0] + good + good + bad + [r.choice(cutno)])
                     for _ in range(r.randint(3, 12))])
    # made anew from a file (kept as a negative number), and closed ("~")
    made = [-f for f in good + bad]
    some = [0, "~", 1, 2, bad[0], -1, -2, -bad[0], -bad[2]]
    for n in (1, 2, 3):
        hist += [list(h) for h in itertools.product(some, repeat=n)]
    hist += [[-f, 0] for f in cutno]
    for _ in range(2000 if THOROUGH else 300):
        hist.append([r.choice([0, "~"] + good + bad + made + [-r.choice(cutno)])
                     for _ in range(r.randint(3, 12))])
    # the same name for files that change
    some = [0, "~", 1, 2, 3, bad[0], bad[2], cutno[-1], -1, -2, -bad[0], -bad[3]]
    for n in (2, 3):
        hist += [["@"] + list(h) for h in itertools.product(some, repeat=n)]
    hist += [["@", r.choice(good), f, 0, r.choice(good)] for f in cutno]
    for _ in range(2000 if THOROUGH else 300):
        hist.append(["@"] + [r.choice([0, "~"] + good + [r.choice(some), r.choice(cutno)])
                             for _ in range(r.randint(3, 12))])
    for f in far + large:
        hist += [[f, 0], [-f, 0], [r.choice(good), f, r.choice(good + bad)],
                 [r.choice(far), f, r.choice(far)]]
    hist += [[large[0], f, large[0], 2] for f in large]
    hist = list(map(list, dict.fromkeys(map(tuple, hist))))

    def kind(f):
        return "close" if f == "~" else "none" if f == 0 else "load" if f > 0 else "make"

    def number(f):
        return 0 if f == "~" else abs(f)

    def name(f, at="", base=lambda p: p):
        return {"none": "-", "close": "~", "load": "", "make": "+"}[kind(f)] \
            + (at + base(files[number(f) - 1][0]) if number(f) else "")

    def names(h, base=lambda p: p):
        at = "@" if h[0] == "@" else ""
        return " ".join(name(f, at, base) for f in h if f != "@")

    ff = os.path.join(scratch, "files.ndjson")
    with open(ff, "w") as f:
        for p, ok, e in files:
            f.write(json.dumps(dict(ok=ok, ent=[
                dict(k=units(w), d=list(x.encode()), r=parse_reading(x))
                for w, x in e.items()])) + "\n")
    pf = os.path.join(scratch, "probes.ndjson")
    with open(pf, "w") as f:
        for p in probes:
            f.write(json.dumps(dict(t=units(p))) + "\n")

    def run(hs):
        lines = list(map(names, hs))
        k = min(JOBS, len(lines) // 50 + 1)
        cmd = lambda j: [d + "/drv-dict", "h", os.path.join(scratch, "slot%d" % j)] \
            + [p.encode().hex() for p in probes]
        parts = parallel(lambda j: run_lines(
            cmd(j), lines[j::k], crash=lambda l, why: json.dumps(dict(x=why[:200]))), range(k))
        out = [None] * len(lines)
        for j, x in enumerate(parts):
            out[j::k] = x
        res = []
        for h, o in zip(hs, out):
            o = o and json.loads(o)
            if o and "h" in o:
                for f, s in zip([f for f in h if f != "@"], o["h"]):
                    s["f"], s["w"] = number(f), kind(f)
            res.append(o and json.dumps(o))
        return res

    def corrupt(x):
        h = x.get("h", [])
        for k, s in enumerate(h):
            if s["w"] == "load" and s["f"] in good and s["m"][0] and k:
                return [dict(x, h=h[:k] + [dict(s, **kw)] + h[k + 1:]) for kw in (
                    dict(d=0), dict(p=0), dict(m=[[]] + s["m"][1:]),
                    dict(e=[s["e"][0][1:]] + s["e"][1:]), dict(f=bad[0]), dict(w="make"))]
        return []
    conform(chk, "load histories", "TraceLoad", TRACECFG, hist, run, corrupt=corrupt,
            env=dict(FILES=ff, PROBES=pf), sample=False,
            show=lambda h: names(h, os.path.basename),
            counts=lambda rs: dict(truncations=len(cuts),
                                   loads=sum(x.count('"f": ') for x in rs)))
    chk.finish()


def C29():
    chk = Check("C29")
    res = tlc("Own", """CONSTANTS
  Dicts = {1, 2%s}
SPECIFICATION Spec
INVARIANTS AtRest Sane Gone
PROPERTY Rests
CHECK_DEADLOCK FALSE
""" % (", 3" if THOROUGH else ""), workers=JOBS)
    chk.model("what dictionaries hold", res)
    d = build("drv-own", "gen-lookup-dict")
    r = rng("C29")
    ent = shipped_entries()
    ents = [{"กา": "c_A_4@2", "กาน": "k_i_0@1,n_a_2@3;k_u_1@3", "งา": "n_O_3@2"}, {}, dict(ent)]
    scratch = tempfile.mkdtemp(dir=tmpdir())
    files = [compile_dict(d + "/gen-lookup-dict", e, "o%d" % k) for k, e in enumerate(ents)]
    good = list(range(1, len(files) + 1))

    def put(name, data):
        p = os.path.join(scratch, name)
        open(p, "wb").write(data)
        files.append(p)
        return len(files)
    whole = [open(p, "rb").read() for p in files]
    files.append(os.path.join(scratch, "missing"))
    os.mkdir(os.path.join(scratch, "dir"))
    files.append(os.path.join(scratch, "dir"))
    bad = [len(files) - 1, len(files), put("empty", b""), put("text", b"hello\n"),
           put("words", whole[0][:-40]), put("data", whole[0][:-1]),
           put("size", whole[0][:whole[0].rindex(b"c_A_4@2") - 2]), put("big", whole[2][:-1])]
    cuts = [put("cut%d" % n, whole[0][:n]) for n in range(len(whole[0]))]
    n = len(whole[2])
    cuts += [put("cut2.%d" % k, whole[2][:k])
             for k in sorted(r.sample(range(n), 400 if THOROUGH else 60))]

    texts = ["กากานงาน", "มา", "", "a", "กา", ".ก.", "หมา แมว", list(ent)[0] + "กา"]
    broken = [b"\xe0\xb8\x81\xe0", b"\xff", "กากา".encode() + b"\x80", b"a" * 40 + b"\xc0\x80"]
    long = ["abc " * 100 + "มา", "a" * 300, "ก." * 120]
    hx = lambda t: (t if isinstance(t, bytes) else t.encode()).hex()
    rounds = lambda b: 40 if max(map(len, (x for _, x in b))) > 800 else 12
    items = []                          # (first, round)

    def ev(o, k, f=0, t="", m="n"):
        p = ":%d:%s" % (f, files[f - 1]) if f else ""
        s = "%s:%d" % (o, k)
        if o in "nm":
            s += ":" + m
        if o in "mlML":
            s += p
        if o in "rRS":
            s += ":" + hx(t)
        return ((o, k, f), s)

    few = [1, 3] + bad
    # every file, loaded and made from, after none and after another
    for f in good + bad + cuts:
        for first in ([ev("n", 1)], [ev("m", 1, 1)]):
            items.append((first, [ev("l", 1, f)]))
        items.append(([], [ev("M", 1, f)]))
        items.append(([], [ev("m", 1, f), ev("x", 1)]))
        items.append(([ev("N", 1)], [ev("L", 1, f), ev("R", 1, t=texts[0])]))
        items.append(([ev("N", 1)], [ev("L", 1, 1), ev("L", 1, f), ev("C", 1)]))
    # rounds of few events
    t = lambda: r.choice(texts)
    alpha = [[ev("l", 1, f) for f in few] + [ev("n", 1), ev("n", 1, m="b"), ev("m", 1, 1),
              ev("m", 1, 3, m="b"), ev("m", 1, bad[0]), ev("m", 1, bad[5])]
             + [ev("r", 1, t=x) for x in texts[:4] + broken],
             [ev("L", 1, f) for f in few] + [ev("N", 1), ev("M", 1, 1), ev("M", 1, bad[5]),
              ev("C", 1)] + [ev(o, 1, t=x) for o in "RS" for x in texts[:3]]]
    for a, first in zip(alpha, ([ev("n", 1)], [ev("N", 1)])):
        for k in (1, 2):
            items += [(first, list(x)) for x in itertools.product(a, repeat=k)]
        items += [(first, [r.choice(a) for _ in range(r.randint(3, 8))])
                  for _ in range(3000 if THOROUGH else 600)]
    # several of them
    for _ in range(2000 if THOROUGH else 400):
        first = [ev("n", k, m=r.choice("nb")) for k in (1, 2, 3)] \
            + [ev("N", k) for k in (1, 2, 3)]
        b = []
        for _ in range(r.randint(2, 12)):
            k, f, m = r.randint(1, 3), r.choice(few), r.choice("nb")
            b.append(r.choice([ev("l", k, f), ev("m", k, f, m=m), ev("n", k, m=m),
                               ev("r", k, t=t()), ev("r", k, t=r.choice(texts + broken)), ev("L", k, f), ev("M", k, f),
                               ev("C", k), ev("R", k, t=t()), ev("S", k, t=t()), ev("N", k)]))
        items.append((first, b))
    # long texts, for longer
    for w in long:
        for m in "nb":
            items += [([ev("n", 1, m=m)], [ev("r", 1, t=w)]),
                      ([ev("n", 1, m=m)], [ev("r", 1, t=w), ev("r", 1, t="มา")]),
                      ([], [ev("m", 1, 3, m=m), ev("r", 1, t=w), ev("x", 1)])]
        items += [([ev("M", 1, 3)], [ev("R", 1, t=w)]), ([], [ev("M", 1, 3), ev("S", 1, t=w)])]
    # many texts
    ws = c.words(r, 6000 if THOROUGH else 1500) + c.sample(r, list(ent), 300) \
        + c.noise(r, 300, 2, 9)
    for w in ws:
        m = r.choice("nb")
        items.append(([r.choice([ev("n", 1, m=m), ev("m", 1, 1, m=m), ev("m", 1, 3, m=m)])],
                      [ev("r", 1, t=w)]))
        items.append(([ev("M", 1, 3)], [ev("R", 1, t=w), ev("S", 1, t=w)]))

    ff = os.path.join(scratch, "good.ndjson")
    with open(ff, "w") as f:
        for k in good:
            f.write(json.dumps(dict(f=k)) + "\n")

    def run(its):
        lines = ["%d\t%s\t%s" % (rounds(b), " ".join(x for _, x in p), " ".join(x for _, x in b))
                 for p, b in its]
        k = min(JOBS, len(lines) // 100 + 1)
        parts = parallel(lambda p: run_lines(
            [d + "/drv-own"], p, crash=lambda l, why: json.dumps(dict(x=why[:200]))),
            [lines[j::k] for j in range(k)])
        out = [None] * len(lines)
        for j, x in enumerate(parts):
            out[j::k] = x
        return [o and json.dumps(dict(json.loads(o), p=[e for e, _ in p], b=[e for e, _ in b]))
                for (p, b), o in zip(its, out)]

    def corrupt(x):
        if "l" not in [e[0] for e in x["b"]] or len(x["ok"]) != 1:
            return []
        h = x["h"]
        return [dict(x, h=[[y[0] + k, y[1], y[2]] for k, y in enumerate(h)]),
                dict(x, h=[[y[0], y[1], y[2] + 2000 * k] for k, y in enumerate(h)]),
                dict(x, h=h[:-1] + [[h[-1][0], h[-1][1] + 1, h[-1][2]]]),
                dict(x, ok=[1 - x["ok"][0]]), dict(x, x="crash")]
    conform(chk, "rounds", "TraceOwn", TRACECFG, items, run, corrupt=corrupt,
            env=dict(FILES=ff), sample=False,
            show=lambda i: " ".join(x for _, x in i[0]) + " | " + " ".join(x for _, x in i[1]),
            replay=lambda i: dict(first=[x for _, x in i[0]], round=[x for _, x in i[1]]),
            counts=lambda rs: dict(rounds=sum(len(json.loads(x).get("h", [0])) - 1 for x in rs)))
    chk.finish()


def C26():
    chk = Check("C26")
    res = tlc("Compile", """CONSTANTS
  Lists = {"a", "b", "c"}
  LinesOf <- TheLines
  BadLine <- TheBad
  SizeOf <- TheSizes
SPECIFICATION Spec
INVARIANTS NeverPartial NothingElse Honest Success
PROPERTY Ends
CHECK_DEADLOCK FALSE
""", workers=JOBS, heap="4g")
    chk.model("compiling while things go wrong", res)
    d = build("drv-dict", "gen-lookup-dict")
    comp = d + "/gen-lookup-dict"
    r = rng("C26")
    ship = shipped_entries()
    lists = ["กา\tc_A_4@2\nกาน\tk_i_0@1,n_a_2@3;k_u_1@3\nงา\tn_O_3@2\n",
             "กา\tP_Ug2@2\nงาน\tg_o_0@1,n_i_3@3\n", "",
             "".join("%s\t%s\n" % x for x in ship.items()),
             # malformed in the middle, at the end
             "กา\tx\nงา\n" + "กาน\ty\n", "กา\tx\nกาน\ty\nabc\tz\n"]
    lists = [x.encode() for x in lists]
    good, bad = [1, 2, 3, 4], [5, 6]
    words = list(ship)
    probes = ["กานงาน", "กากางา"] + ["".join(words[j:j + 12]) for j in range(0, len(words), 12)]
    scratch = tempfile.mkdtemp(dir=tmpdir())
    paths = []
    for k, b in enumerate(lists):
        paths.append(os.path.join(scratch, "list%d" % (k + 1)))
        open(paths[-1], "wb").write(b)

    def go(args, lim=None, ignore=True, feed=None):
        """Status of the compiler; lim: bytes that can be written (writing on
        fails, or ends it); feed: give it this and kill it."""
        cmd = (["prlimit", "--core=0", "--fsize=%d" % lim] if lim is not None else []) \
            + [comp] + args
        p = subprocess.Popen(cmd, env=ENV, cwd=scratch,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             stdin=subprocess.DEVNULL if feed is None else subprocess.PIPE,
                             restore_signals=not ignore)
        try:
            if feed is not None:
                try:
                    p.stdin.write(feed)
                    p.stdin.flush()
                except BrokenPipeError:
                    pass
                time.sleep(0.01)
                p.kill()
                try:
                    p.stdin.close()
                except BrokenPipeError:
                    pass
            return p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return 999

    sizes = {}
    for l in good:
        out = os.path.join(scratch, "size")
        if go([paths[l - 1], out]) == 0 and os.path.exists(out):
            sizes[l] = os.path.getsize(out)
            os.unlink(out)
        else:
            sizes[l] = 1                # the runs without a fault will tell

    # a run: list, fault, where
    def fault(l):
        k = r.randint(0, 9)
        if k < 4:
            return (l, "none", 0)
        if k < 7 and l in good:
            return (l, r.choice(["full", "stop"]), r.randint(0, sizes[l] + 5))
        if k < 8:
            return (l, "kill", r.randint(0, len(lists[l - 1])))
        return (l, r.choice(["noin", "dirin", "noout", "dirout", "call0", "call1", "call3"]), 0)
    hist = []
    allk = {l: list(range(sizes[l] + 2)) for l in (1, 2, 3)}
    big = sizes[4]
    step = 1 if THOROUGH else max(1, big // 150)
    allk[4] = sorted(set(range(0, big + 2, step)) | set(range(max(0, big - 60), big + 2)))
    for l in good:
        for k in allk[l]:
            hist.append([(l, "full", k)])
            if THOROUGH or k % 3 == 0 or k >= sizes[l] - 2:
                hist.append([(l, "stop", k)])
                hist.append([(r.choice(good), "none", 0), (l, r.choice(["full", "stop"]), k)])
    for l in good + bad:
        n = len(lists[l - 1])
        for k in sorted(set(range(0, n + 1, 1 if n < 200 else n // 60)) | {n}):
            hist.append([(l, "kill", k)])
    others = [(l, f, 0) for l in (1, 5) for f in ("none", "noin", "dirin", "noout", "dirout",
                                                  "call0", "call1", "call3")]
    others += [(1, "full", sizes[1] // 2), (1, "stop", sizes[1] // 2), (1, "kill", 20),
               (2, "none", 0), (6, "none", 0)]
    for n in (1, 2):
        hist += [list(h) for h in itertools.product(others, repeat=n)]
    for _ in range(2000 if THOROUGH else 250):
        hist.append([fault(r.choice(good + bad)) for _ in range(r.randint(3, 8))])
    hist = list(map(list, dict.fromkeys(map(tuple, hist))))

    lf, pf = os.path.join(scratch, "lists.ndjson"), os.path.join(scratch, "probes.ndjson")
    with open(lf, "w") as f:
        for b in lists:
            f.write(json.dumps(dict(b=list(b))) + "\n")
    with open(pf, "w") as f:
        for p in probes:
            f.write(json.dumps(dict(t=units(p))) + "\n")
    none = os.path.join(scratch, "none")
    adir = os.path.join(scratch, "dir")
    os.mkdir(adir)
    # whatever the compiler does to the files it is given stays in the scratch directory
    pipe = os.path.join(scratch, "pipe")
    os.symlink("/dev/stdin", pipe)

    def run(hs):
        base = tempfile.mkdtemp(dir=scratch)

        def one(j):
            out = os.path.join(base, "%d.dic" % j)
            res = []
            for n, (l, f, k) in enumerate(hs[j]):
                src, hit = paths[l - 1], True
                if f == "none":
                    st, hit = go([src, out]), False
                elif f in ("full", "stop"):
                    # the size of a malformed list's dictionary is unknown
                    hit = l in bad or k < sizes[l]
                    st = go([src, out], lim=k, ignore=f == "full")
                elif f == "kill":
                    st, hit = go([pipe, out], feed=lists[l - 1][:k]), False
                else:
                    st = go({"noin": [none, out], "dirin": [adir, out],
                             "noout": [src, os.path.join(none, "x")], "dirout": [src, adir],
                             "call0": [], "call1": [src], "call3": [src, out, out]}[f])
                snap = os.path.join(base, "%d.%d" % (j, n))
                if os.path.exists(out):
                    shutil.copyfile(out, snap)
                res.append(dict(l=l, f="call" if f.startswith("call") else f, at=k, hit=hit,
                                st=st, p=snap))
            return res
        recs = parallel(one, range(len(hs)))
        asked = [s["p"] + "".join(" " + q.encode().hex() for q in probes)
                 for h in recs for s in h]
        k = min(JOBS, len(asked) // 100 + 1)
        got = [None] * len(asked)
        for j, x in enumerate(parallel(lambda p: run_lines(
                [d + "/drv-dict", "q"], p, crash=lambda l, why: json.dumps(dict(x=why[:200]))),
                [asked[j::k] for j in range(k)])):
            got[j::k] = x
        res, at = [], 0
        for h in recs:
            bits = got[at:at + len(h)]
            at += len(h)
            if None in bits:
                res.append(None)
                continue
            bits = [json.loads(x) for x in bits]
            x = [b["x"] for b in bits if "x" in b] + \
                ["no end" for s in h if s["st"] == 999]
            if x:
                res.append(json.dumps(dict(h=[], x=x[0])))
                continue
            res.append(json.dumps(dict(h=[
                dict({a: s[a] for a in ("l", "f", "at", "hit", "st")}, ld=b["ld"],
                     m=[q["m"] for q in b["q"]]) for s, b in zip(h, bits)])))
        shutil.rmtree(base, True)
        return res

    def corrupt(x):
        h = x["h"]
        for k, s in enumerate(h):
            if k and s["f"] == "none" and s["l"] in (1, 2):
                def put(**kw):
                    return dict(x, h=h[:k] + [dict(s, **kw)] + h[k + 1:])
                return [put(st=1), put(ld=False), put(m=[s["m"][0][1:]] + s["m"][1:]),
                        put(hit=True), put(l=5), put(l=3 - s["l"])]
        return []
    conform(chk, "runs", "TraceCompile", TRACECFG, hist, run, corrupt=corrupt,
            env=dict(LISTS=lf, PROBES=pf), sample=False,
            show=lambda h: "; ".join("list %d %s %d" % s for s in h),
            counts=lambda rs: dict(runs=sum(x.count('"st": ') for x in rs),
                                   with_faults=sum(x.count('"hit": true') for x in rs),
                                   usable=sum(x.count('"ld": true') for x in rs)))
    chk.cov["samples"].append(dict(runs="; ".join("list %d %s %d" % s for s in hist[-1])))
    chk.assume.append("Loading at any moment is represented by loading after the compiler "
                      "ended; failing and fatal writes are made with a limit on file sizes.")
    chk.finish()
