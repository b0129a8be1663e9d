"""Checks of the program as a whole: C19 - C22."""
import itertools

import corpus as c
from readings import *

TRACECFG = "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n"


# ------------------------------------------------------------ command line --
BADWORDS = [b"\xff", b"ab\x80", "ก".encode() + b"\xe0", b"\xe0\xb8", b"\xc0\x80",
            b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xe0\x80\x80",
            b"a\xe0\xb8", "กา".encode() + b"\xb8" + "มา".encode(), b"\xf0\x9f\x98",
            b"\xc1\xbf", b"\xf0\x82\x82\xac", b"\xfe", b"x\xed\xbf\xbf"]


def cli_words(r):
    ws = ["กา", "น้ำ", "แม่น้ำ", "ตากลม", "เพลา", "a", "กา มา", "ก.", "ๆ", "กา-มา", "กา\r",
          "\"", "x\\y", "😀", "é", "กรรม", "สระ", "ทราย", ".", "มา:", "๑๒", " กา", "กา ", "\t",
          "ศาลหลักเมือง", "พลเมือง", "ขนมปัง", "\\", "'", "เสมา"]
    ws += c.words(r, 60, hi=2, maxlen=8)
    ws += r.sample(list(shipped_entries()), 12)
    return [w.encode() for w in dict.fromkeys(ws)]


LOCALES = ["C.UTF-8", "C", "POSIX", "no_SUCH"]


def C19():
    chk = Check("C19")
    res = tlc("CliRun", """CONSTANTS
  Alphabet <- TheAlphabet
  MaxArgs = %d
  Inputs <- TheInputs
SPECIFICATION Spec
INVARIANTS Right Ordered NotEarly Sources
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % (4 if THOROUGH else 3), workers=JOBS, heap="6g")
    chk.model("calls with up to %d arguments" % (4 if THOROUGH else 3), res)

    d = build("drv-text", "thpronun", "gen-lookup-dict")
    r = rng("C19")
    scratch = tempfile.mkdtemp(dir=tmpdir())
    gen = d + "/gen-lookup-dict"
    dicts = {1: compile_dict(gen, {w: x for w, x in shipped_entries().items()}),
             2: compile_dict(gen, {"กา": "c_A_4@2;P_Ug2@2", "มา": "n_O_3@2"})}
    cwds = {}
    for k in (0, 1, 2):
        cwds[k] = os.path.join(scratch, "cwd%d" % k)
        os.mkdir(cwds[k])
        if k:
            shutil.copy(dicts[k], os.path.join(cwds[k], "except.dic"))
    cwds[3] = os.path.join(scratch, "cwd3")         # a default dictionary cut short
    os.mkdir(cwds[3])
    b = open(dicts[1], "rb").read()
    open(os.path.join(cwds[3], "except.dic"), "wb").write(b[:len(b) // 2])
    pathno = {dicts[1]: 1, dicts[2]: 2, os.path.join(scratch, "none"): 0,
              os.path.join(cwds[3], "except.dic"): 0, "except.dic.not": 0, "x": 0}

    # what the library writes for each word
    good = cli_words(r)
    long = [("x" * n).encode() for n in (127, 128, 255, 256, 1023, 1024, 4095, 4096, 9000)]
    long += [("กา" + "é" * n + "มา").encode() for n in (63, 510, 2046)]
    long += [(" ".join(["มา"] * n)).encode() for n in (8, 30)]
    words = list(dict.fromkeys(good + long + BADWORDS + [b"", b"\0", "กา\0มา".encode(), b"a", b"b",
                                                  b"\r", "มา".encode(), "กา".encode()]))
    rows = []
    for k in (0, 1, 2):
        for n in (False, True):
            cmd = [d + "/drv-text", "-n" if n else "-b"] + ([dicts[k]] if k else [])
            out = run_lines(cmd, [w.hex() for w in words],
                            crash=lambda l, why: json.dumps(dict(big=0)))
            rows.append([(w, k, n, json.loads(o)) for w, o in zip(words, out) if o])
    big = {w for t in rows for w, _, _, o in t if "big" in o}
    good = [w for w in good if w not in big]
    if len(good) < 30:
        die("too few words for calls")
    tf = os.path.join(scratch, "tables.ndjson")
    with open(tf, "w") as f:
        for t in rows:
            for w, k, n, o in t:
                if w not in big:
                    f.write(json.dumps(dict(o, d=k, n=n)) + "\n")
    pf = os.path.join(scratch, "paths.ndjson")
    with open(pf, "w") as f:
        for p, k in pathno.items():
            f.write(json.dumps(dict(p=list(p.encode()), d=k)) + "\n")

    hung = []

    def call(args, stdin, cwd):
        if len(hung) > 10:
            return None
        try:
            p = subprocess.run([(d + "/thpronun").encode()] + args, input=stdin, cwd=cwds[cwd],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30,
                               env=dict(ENV, LC_ALL=LOCALES[len(b"".join(args)) % len(LOCALES)]))
        except subprocess.TimeoutExpired:
            hung.append(args)
            return dict(a=[], x="does not end")
        if p.returncode < 0:
            return dict(a=[], x="killed by signal %d: %s" % (
                -p.returncode, p.stderr.decode(errors="replace")[-200:]))
        return dict(a=[list(a) for a in args], d=0 if cwd == 3 else cwd, st=p.returncode,
                    out=p.stdout.hex(), err=list(p.stderr), **{"in": list(stdin)})

    msgs = dict(help=call([b"--help"], b"", 1), version=call([b"--version"], b"", 1))
    for k, m in msgs.items():
        if not m.get("out"):
            chk.violation("--%s writes no message" % k, m)
            chk.finish()
    mf = os.path.join(scratch, "msgs.ndjson")
    open(mf, "w").write(json.dumps({k: m["out"] for k, m in msgs.items()}) + "\n")

    # all short argument lists
    dpath = {k: b"-d" + p.encode() for p, k in reversed(list(pathno.items()))}
    al = [b"-t", b"-r", b"-p", b"-w", b"-s", b"-j", b"-g", b"-n", dpath[2], b"-d" + b"x",
          b"--help", b"-x", "กา".encode(), "มา".encode()]
    items = [(list(a), b"a\n" if k % 2 else "กา\nมา".encode(), k % 4)
             for n in (0, 1, 2) for k, a in enumerate(itertools.product(al, repeat=n))]
    tri = list(itertools.product(al, repeat=3))
    items += [(list(a), b"", r.randrange(4)) for a in c.sample(r, tri, 3000 if THOROUGH else 500)]
    # stopping options at every place
    stops = [b"-h", b"--help", b"-V", b"--version", b"-x", b"--", b"-", b"--foo", b"-d", b"-T",
             b"--helpx", b"--versio", b"-1", "-ก".encode(), b"--h"]
    for s in stops:
        for pre in ([], [b"-t"], ["กา".encode()], [b"-j", "กา".encode(), b"-r"],
                    [b"-n", "กา".encode(), "มา".encode()]):
            for post in ([], ["กา".encode()], [b"-g"]):
                items.append((pre + [s] + post, b"a\nb\n", r.choice([0, 1])))
        items.append(([s, r.choice(stops), b"a"], b"", 1))
    # every notation and structure, both sources
    opts = [b"-t", b"-r", b"-p", b"-w", b"-s", b"-j", b"-g", b"-n"]
    dopts = [b"-d" + p.encode() for p in pathno]
    stdins = [b"", b"\n", b"\n\n", b"a", b"a\n", b"a\n\nb\n", b"\r\n"]
    for _ in range(6000 if THOROUGH else 900):
        o = r.sample(opts, r.choice([0, 1, 1, 2, 3, 4]))
        if r.randint(0, 5) == 0 and o:
            o.append(r.choice(o))
        if r.randint(0, 2) == 0:
            o.append(r.choice(dopts))
        pool = good if r.randint(0, 2) else good + BADWORDS
        ws = [r.choice(pool) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if r.randint(0, 9) == 0:
            ws.append(b"")
        cwd = r.randrange(4)
        if r.randint(0, 1):
            a = o + ws
            r.shuffle(a)
            if any(x.startswith(b"-") for x in ws):
                continue
            items.append((a, r.choice(stdins), cwd))
        else:
            r.shuffle(o)
            if r.randint(0, 9) == 0:
                ws.append(r.choice([b"\0", "กา\0มา".encode()]))
            ws = [w for w in ws if b"\n" not in w]
            items.append((o, b"\n".join(ws) + r.choice([b"", b"\n", b"\n"]), cwd))
    # many words, and long ones
    for k in range(40 if THOROUGH else 16):
        ws = [r.choice(good) for _ in range(r.choice([9, 17, 33, 65, 129, 260]))]
        if k % 2:
            ws[r.randrange(len(ws))] = r.choice(BADWORDS)
        o = r.sample(opts, r.choice([1, 1, 2]))
        if k % 4 < 2:
            items.append((o + [w for w in ws if w and not w.startswith(b"-")], b"a\n", k % 3))
        else:
            items.append((o, b"\n".join(ws) + b"\n", k % 3))
        o = [r.choice(opts) for _ in range(r.choice([9, 20, 40]))]
        items.append((o + ["กา".encode()] * r.randint(0, 1), "มา\n".encode() * 40, k % 3))
    for w in long:
        if w not in big:
            items.append(([r.choice(opts), w, "กา".encode(), w], b"", 1))
            items.append(([r.choice(opts)], w + b"\n" + "กา".encode() + b"\n" + w, 1))
            items.append(([], b"a\n" + w + b"\n", 0))

    def run(its):
        del hung[:]
        return [x and json.dumps(x) for x in parallel(lambda it: call(*it), its)]

    def corrupt(x):
        if x.get("st") != 0 or len(x["out"]) < 60 or any(b > 127 for b in x["err"]) \
                or not any(a[:1] != [45] for a in x["a"]) or x["d"] != 1 \
                or any(a[:2] == [45, 100] for a in x["a"]):
            return []
        o = x["out"]
        return [dict(x, out=o[:-2]), dict(x, out=o + o), dict(x, st=1), dict(x, out=""),
                dict(x, a=x["a"] + [list("กา".encode())]), dict(x, a=x["a"] + [[45, 120]]),
                dict(x, err=[65])]
    conform(chk, "calls", "TraceCli", TRACECFG, items, run, corrupt=corrupt,
            env=dict(TABLES=tf, PATHS=pf, MSGS=mf), sample=False,
            show=lambda it: "%r stdin %r (default dictionary %d)" % it,
            counts=lambda rs: dict(stopped=sum('"st": 1' in x for x in rs),
                                   from_stdin=sum(not it[0] or all(a.startswith(b"-") for a in it[0])
                                                  for it in items)))
    chk.cov["samples"].append(dict(args=repr(items[-1][0]), stdin=repr(items[-1][1])))
    chk.assume.append("The texts of the blocks are what the library writes for the same word; "
                      "C01-C18 decide these.")
    chk.finish()


# ------------------------------------------------------------------ effort --
ODD = ["\0", "\x01", "\x7f", "​", "﻿", "�", "￿", "\U0010ffff", "😀", "é", "中", "\n", "\r",
       " ", ".", "฀", "฻", "฿", "๛", "๜", "๿", "ฺ", "๎", "ํ"]
PATTERNS = ["กรา", "กา", "ก", "กร", "สระ", "อก", "ทร", "รร", "ฤ", "จร", "ก.", "กa", "a", "เ",
            "กร์", "บริ", "บดี", "กุ", "มติ", "ตร", "หน", "ขวา", "ปร", "โกร", "ไก", "ำ", "์",
            "กรรม", " ", "ๆ", "มหา", "กน", "น", "ต", "สม", "อา", "เเ", "แก", ".", "ก ", "กๆ", "ว",
            "ร", "ติ", "ตุ", "ธ", "😀", "่", "กต", "กตต", "สวร", "ถน", "ปรก"]


def C20():
    chk = Check("C20")
    from chk_reading import small_pool, mixed, dotted, dict_words
    small_pool(chk, "กราต", 6 if THOROUGH else 5, "left")
    small_pool(chk, "กสรุ์", 5 if THOROUGH else 4, "left", "{}, {2}")
    san = build("drv-stress", "gen-lookup-dict", san=True)
    fast = build("drv-stress", "gen-lookup-dict")
    r = rng("C20")
    ent = shipped_entries()
    dic = compile_dict(fast + "/gen-lookup-dict", ent)
    limit = 300
    n = 8 if THOROUGH else 1

    thai = [chr(x) for x in range(0xE00, 0xE80)]
    texts = [a for a in thai] + [a + b for a in thai for b in thai]
    texts += c.sample(r, [a + b + x for a in c.LETTERS for b in c.LETTERS for x in c.LETTERS],
                      9000 * n)
    texts += c.words(r, 8000 * n) + mixed(r, 3000 * n) + dotted(r, 2000 * n)
    texts += dict_words(r, list(ent), 2000 * n)
    texts += c.noise(r, 9000 * n, 2, 9) + c.noise(r, 3000 * n, 2, 9, thai + ODD)
    texts += c.noise(r, 500 * n, 20, 60)
    texts += [x[:-k] for x in c.words(r, 1000 * n) for k in (1, 2) if len(x) > k]
    data = [t.encode() for t in dict.fromkeys(texts)] + [b""]
    for _ in range(1500 * n):           # bytes that are no text
        w = bytearray(c.word(r).encode())
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(w) + 1)
            if r.randint(0, 1) and w:
                w[min(k, len(w) - 1)] = r.randrange(256)
            else:
                w[k:k] = bytes([r.randrange(256)])
        data.append(bytes(w))
    # long ones with few pronunciations
    for u in ("a", "a ", "ตี ", "😀", "é中", "ๆ", "มา-", "ก. "):
        for m in (100, 400):
            data.append((u * (m // len(u))).encode())
    data += [("ตี" + "x" * m + "มา").encode() for m in (5000, 20000)]
    data = list(dict.fromkeys(data))

    def run(mode, exe, lim, part):
        def go(ts):
            k = min(JOBS, len(ts) // 200 + 1)
            cmd = [exe + "/drv-stress", mode, str(lim)] + ([dic] if part else [])
            res = parallel(lambda p: run_lines(
                cmd, [t.hex() for t in p],
                crash=lambda l, why: json.dumps(dict(k="t", x=why[-200:]))),
                [ts[j::k] for j in range(k)])
            out = [None] * len(ts)
            for j, x in enumerate(res):
                out[j::k] = x
            return [None if o is None else json.dumps(dict(json.loads(o), k="t", lim=lim))
                    for o in out]
        return go

    def corrupt(x):
        if x.get("p", 0) < 2:
            return []
        return [dict(x, e=10 ** 6), dict(x, c=10 ** 6), dict(x, o=0), dict(x, x="crash")]
    half = len(data) // 2
    mixed_up = data[:]
    r.shuffle(mixed_up)
    conform(chk, "any text", "TraceStress", TRACECFG, data, run("-n", san, limit, False),
            corrupt=corrupt, show=lambda t: repr(t.decode(errors="backslashreplace")),
            replay=lambda t: dict(hex=t.hex()))
    conform(chk, "any text, word breaks and dictionary", "TraceStress", TRACECFG,
            mixed_up[:len(data) if THOROUGH else half], run("-b", san, limit, True),
            corrupt=corrupt, show=lambda t: repr(t.decode(errors="backslashreplace")),
            replay=lambda t: dict(hex=t.hex()))

    # longer and longer texts
    sizes = (32, 64, 128, 256) + ((512, 1024) if THOROUGH else ())
    pats = [p for p in PATTERNS] + [c.word(r, 2, 4) for _ in range(20 * n)] \
        + list(r.sample(list(ent), 6))
    pats = [(p, m) for p in pats for m in ("-n", "-b")]

    def series(ps):
        hung = []

        def one(pm):
            p, m = pm
            if len(hung) > 10:
                return None
            lines = [("".join(itertools.islice(itertools.cycle(p), u))).encode().hex()
                     for u in sizes]
            pts = []
            for l in lines:
                try:
                    x = subprocess.run([fast + "/drv-stress", m, "0", dic], timeout=60,
                                       input=(l + "\n").encode(), stdout=subprocess.PIPE,
                                       stderr=subprocess.PIPE, env=ENV)
                except subprocess.TimeoutExpired:
                    hung.append(p)
                    return json.dumps(dict(k="s", x="does not end at %d characters" % (len(l) // 6)))
                if x.returncode:
                    return json.dumps(dict(k="s", x="ended with status %d: %s" % (
                        x.returncode, x.stderr.decode(errors="replace")[-200:])))
                x = json.loads(x.stdout)
                pts.append([x["u"], x["e"], x["c"], x["ms"]])
            return json.dumps(dict(k="s", pts=pts))
        return parallel(one, ps)

    def corrupt_s(x):
        p = x.get("pts")
        if not p:
            return []
        return [dict(x, pts=p[:-1] + [p[-1][:3] + [50000]]),
                dict(x, pts=p[:-1] + [[p[-1][0], 10 ** 6] + p[-1][2:]])]
    conform(chk, "growth", "TraceStress", TRACECFG, pats, series, corrupt=corrupt_s,
            show=lambda p: "%r repeated, %s" % p)
    chk.assume += ["Memory errors and undefined behaviour are those that AddressSanitizer, "
                   "UndefinedBehaviorSanitizer and the assertions of the library notice.",
                   "Outputs are written for texts with up to %d pronunciations." % limit]
    chk.finish()


# ------------------------------------------------------------ shipped data --
def shipped_by_recipe(gen):
    """The list and the dictionary made from the shipped files the way the
    build does it (data/Makefile.am), in a scratch directory."""
    d = tempfile.mkdtemp(dir=tmpdir())
    for f in os.listdir(os.path.join(REPO, "data")):
        if f.endswith((".tsv", ".am")) and f not in ("except.tsv",):
            shutil.copy(os.path.join(REPO, "data", f), d)
    os.mkdir(os.path.join(d, "dict"))
    shutil.copy(gen, os.path.join(d, "dict", "gen-lookup-dict"))
    r = subprocess.run(["make", "-f", "Makefile.am", "top_builddir=.", "top_srcdir=.",
                        "srcdir=.", "builddir=.", "except.dic"], cwd=d, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    lst, dic = os.path.join(d, "except.tsv"), os.path.join(d, "except.dic")
    if r.returncode == 0 and os.path.exists(lst) and os.path.exists(dic):
        return open(lst, "rb").read(), dic, None
    return (open(lst, "rb").read() if os.path.exists(lst) else b""), None, \
        r.stdout.decode(errors="replace")[-400:]


def C21():
    chk = Check("C21")
    d = build("drv-parse", "gen-lookup-dict")
    lines = []
    dd = os.path.join(REPO, "data")
    for f in sorted(os.listdir(dd)):
        if f.endswith(".tsv") and f != "except.tsv":
            b = open(os.path.join(dd, f), "rb").read()
            lines += [(f, l) for l in b.split(b"\n")[:None if b and b[-1:] != b"\n" else -1]]
    if len(lines) < 20:
        die("no exception data found")
    lst, dic, err = shipped_by_recipe(d + "/gen-lookup-dict")
    if dic is None and not lst:
        die("cannot make the shipped list: %s" % err)
    lf = os.path.join(tmpdir(), "list.ndjson")
    open(lf, "w").write(json.dumps(dict(b=list(lst))) + "\n")

    def corrupt_l(x):
        l = bytes(x["l"])
        k, t, v = l.partition(b"\t")
        return [dict(x, l=list(y)) for y in (
            k + v, k + t + v[:-1] + b"1", k + t + v + b"9", k + t + b"Q" + v[1:], k + t,
            k + t + v[:4] + b"5" + v[5:], k[3:] + l, k + t + v + b";", k + t + v + b",",
            v[:4] + v[5:])]
    conform(chk, "lines", "TraceData", TRACECFG, lines,
            lambda ls: [json.dumps(dict(f=f, l=list(l))) for f, l in ls],
            env=dict(LIST=lf), corrupt=corrupt_l,
            show=lambda x: "%s: %s" % (x[0], x[1].decode(errors="backslashreplace")))
    if dic is None:
        chk.violation("the shipped list does not compile: %s" % err, {})
        chk.finish()
    words = []
    for l in lst.split(b"\n"):
        try:
            w = l.split(b"\t")[0].decode("utf-8")
        except UnicodeDecodeError:
            continue
        if w:
            words.append(w)
    words = list(dict.fromkeys(words))

    def read(ws):
        out = []
        for w, o in zip(ws, record(d + "/drv-parse", ws, dic=dic)):
            o = json.loads(o)
            o["k"] = units(w)
            out.append(json.dumps(o))
        return out

    def corrupt_w(x):
        e = x.get("e")
        if not e:
            return []
        return [dict(x, e=e[1:]), dict(x, e=e + [e[0][:3] + ["4" if e[0][3] != "4" else "3"]])]
    conform(chk, "words", "TraceData", TRACECFG, words, read, env=dict(LIST=lf),
            corrupt=corrupt_w)
    chk.cov["exhaustive"] = True
    chk.finish()


# --------------------------------------------------------------- histories --
OUTPUTS = [n + k for n in "trpws" for k in "012"] + ["r3", "x3", "x4"]


def C22():
    chk = Check("C22")
    d = build("drv-pure", "drv-stress", "gen-lookup-dict")
    r = rng("C22")
    gen = d + "/gen-lookup-dict"
    ent = shipped_entries()
    scratch = tempfile.mkdtemp(dir=tmpdir())
    paths = {1: compile_dict(gen, ent), 2: compile_dict(gen, {
        "กา": "c_A_4@2;P_Ug2@2", "มา": "n_O_3@2", "ตา": "t_a_1@-102,r_i_3@2"})}
    b = open(paths[1], "rb").read()
    paths[3] = os.path.join(scratch, "cut")
    open(paths[3], "wb").write(b[:len(b) * 2 // 3])
    paths[4] = os.path.join(scratch, "none")
    good = [1, 2]
    texts = ["กามา", "ตากลม", "a", "", "กรรม", "ก.ก.", "กา ตา", "เพลา", "สระ", "มา😀กา", "จระ",
             "ศาลหลักเมือง", "ฤดู", "พฤกษ์", "บริหาร",
             "แม่ไปดูหมูที่บ้าน", "พี่ไม่มีเงินใช้แล้ว", "น้องไปโรงเรียนเช้า", "ฝนตกใส่ต้นไม้ในสวน"]
    texts += c.sample(r, list(ent), 10) + c.words(r, 60 if THOROUGH else 25, 1, 2)
    st = run_lines([d + "/drv-stress", "-n", "0"], [t.encode().hex() for t in texts],
                   crash=lambda l, why: '{"p":0}')
    st = [o or '{"p":99}' for o in st]
    texts = [t for t, o in zip(texts, st) if json.loads(o)["p"] <= 60]
    hx = [t.encode().hex() for t in texts]
    modes = "nb"

    def drive(hs, k=None):
        k = k or min(JOBS, len(hs) // 20 + 1)
        res = parallel(lambda p: run_lines(
            [d + "/drv-pure"], [" ".join(h) for h in p],
            crash=lambda l, why: json.dumps(dict(x=why[-200:]))), [hs[j::k] for j in range(k)])
        out = [None] * len(hs)
        for j, x in enumerate(res):
            out[j::k] = x
        return out

    def load(p, f):
        return "L:%d:%d:%s" % (p, f, paths[f])

    def made(p, m, f):
        return "M:%d:%s:%d:%s" % (p, m, f, paths[f])

    # what a fresh reader gives in its first reading, each in its own process
    refg, refo, bad = {}, {}, []
    cases = [(t, m, f) for t in range(len(texts)) for m in modes for f in [0] + good]

    def fresh(cs):
        t, m, f = cs
        pre = ["N:1:" + m] + ([load(1, f)] if f else []) + ["R:1:%d:%s" % (t + 1, hx[t])]
        res = []
        for o in OUTPUTS:               # each output from a graph of its own
            x = json.loads(run_lines([d + "/drv-pure"], [" ".join(pre + ["O:1:" + o])],
                                     crash=lambda l, why: json.dumps(dict(x=why[-200:])))[0])
            if "x" in x:
                return cs, x["x"]
            res.append((x["h"][-2][3], x["h"][-1][3]))
        return cs, res
    for (t, m, f), res in parallel(fresh, cases):
        key = "%d%s%d" % (t + 1, m, f)
        if isinstance(res, str):
            chk.violation("reading %r fails: %s" % (texts[t], res), dict(hex=hx[t]))
            chk.finish()
        refg[key] = res[0][0]
        for o, (g, v) in zip(OUTPUTS, res):
            if g != refg[key]:
                chk.violation("two fresh readers read %r differently" % texts[t], dict(hex=hx[t]))
            refo[key + o] = v
    rf = os.path.join(scratch, "ref.ndjson")
    open(rf, "w").write(json.dumps(dict(good=good, g=refg, o=refo)) + "\n")

    # all short histories over a few events
    few = [texts.index(t) for t in ("กามา", "ตากลม") if t in texts]
    evs = ["N:1:n", "N:2:b", load(1, 1), load(1, 2), load(1, 3), load(2, 2),
           made(1, "n", 2)] \
        + ["R:%d:%d:%s" % (p, t + 1, hx[t]) for p in (1, 2) for t in few] \
        + ["O:1:r0", "O:1:t2", "O:2:w1", "C:1"]

    def ok(h):
        g = 0
        for e in h:
            if e[0] in "RC":
                if e[0] == "C" and g < 1:
                    return False
                g += 1
            elif e[0] == "O" and int(e.split(":")[1]) > g:
                return False
        return True
    pre = ["N:1:n", "N:2:b"]
    hist = []
    for n in range(1, 5):
        for t in itertools.product(evs, repeat=n):
            if t[-1][0] in "ROC" and ok(t):
                hist.append(pre + list(t))
    total = len(hist)

    # one text read again after several changes of the dictionary
    one = ["R:1:%d:%s" % (t + 1, hx[t]) for t in few]
    for m in modes:
        sets = [load(1, 1), load(1, 2), load(1, 4)], \
            ["N:1:" + m, made(1, m, 1), made(1, m, 2), load(1, 2)]
        for evs in sets:
            for n in range(1, 5 if len(evs) < 4 else 4):
                for t in itertools.product(evs, repeat=n):
                    x = r.choice(one)
                    hist.append([made(1, m, 2), x] + list(t) + [x])
        for _ in range(400 if THOROUGH else 100):
            x, h = r.choice(one), ["N:1:" + m]
            for _ in range(r.randint(10, 30)):
                h += [r.choice(sets[0] + sets[1]) for _ in range(r.randint(1, 5))] + [x]
            hist.append(h)

    # long ones
    for _ in range(4000 if THOROUGH else 700):
        h, g, ps = [], 0, []
        for _ in range(r.randint(10, 60)):
            x = r.random()
            if not ps or x < .06:
                p = r.randint(1, 3)
                ps = list(set(ps + [p]))
                m = r.choice(modes)
                h.append(r.choice(["N:%d:%s" % (p, m), made(p, m, r.choice([1, 2, 3, 4]))]))
            elif x < .2:
                h.append(load(r.choice(ps), r.choice([1, 1, 2, 2, 3, 4])))
            elif x < .5 or not g:
                t = r.randrange(len(texts))
                h.append("R:%d:%d:%s" % (r.choice(ps), t + 1, hx[t]))
                g += 1
            elif x < .55:
                h.append("C:%d" % r.randint(1, g))
                g += 1
            else:
                h.append("O:%d:%s" % (r.randint(max(1, g - 3), g), r.choice(OUTPUTS)))
        hist.append(h)

    def corrupt(x):
        h = x.get("h", [])
        for k, e in enumerate(h):
            if e[0] == "O" and len(h) > 8:
                reads = [j for j in range(len(h)) if h[j][0] == "R"]
                j = reads[0]
                return [dict(x, h=h[:k] + [e[:3] + ["0.0"]] + h[k + 1:]),
                        dict(x, h=h[:j] + [h[j][:3] + ["0.0"]] + h[j + 1:])]
        return []
    conform(chk, "histories", "TraceHistory", TRACECFG, hist, drive, env=dict(REF=rf),
            corrupt=corrupt, show=lambda h: re.sub(r"/\S+/", "", " ".join(h)), sample=False,
            counts=lambda rs: dict(events=sum(len(h) for h in hist),
                                   short_histories_in_all=total))
    chk.cov["samples"].append(dict(history=re.sub(r"/\S+/", "", " ".join(hist[-1]))[:600]))

    # many kinds of texts, each after many others
    from chk_reading import WORDS, mixed, dotted, dict_words
    n = 4 if THOROUGH else 1
    many = [a + v + f for a in ("ก", "คร", "หน", "สม") for v in
            ("ิ", "ี", "ึ", "ื", "ุ", "ู", "ั", "า", "็อ", "อ", "", "ว", "รร") for f in ("", "ย", "ว", "น", "ต", "ร", "ติ")]
    many += [l + a + v for l in c.LEAD for a in ("ก", "คร", "หน", "สม") for v in
             ("", "า", "ะ", "าะ", "อ", "ย", "น", "็น", "ิน", "ียน", "ือน", "่น", "ว")]
    many += c.words(r, 700 * n) + mixed(r, 120 * n) + dotted(r, 120 * n) \
        + dict_words(r, list(ent), 150 * n) + c.noise(r, 100 * n)
    many += [a + c.RU + b for a in ["", "ก", "พ", "ห", "อ", "ท", "ด"] for b in ("", "า", "ก", "ษี", "ๅ")]
    many += ["".join(c.pick(r, WORDS, r.randint(4, 9))) for _ in range(60 * n)]
    many = list(dict.fromkeys(many))
    # texts that are beginnings of others, or differ in one place only
    stem = "".join(r.choice(["กา", "มี", "ตู", "นะ"]) for _ in range(10))
    for k in (7, 8, 15, 16):
        for x in ("กา", "ตี", "a", "น้ำ"):
            many += [stem[:k], stem[:k] + x, x + stem[:k], stem[:k // 2] + x + stem[k // 2 + len(x):k]]
    many = list(dict.fromkeys(many))
    hm = [t.encode().hex() for t in many]
    kinds = [("n", 0), ("b", 1)]

    def first(cs):
        t, (m, f) = cs
        x = json.loads(run_lines(
            [d + "/drv-pure"],
            [" ".join(["N:1:" + m] + ([load(1, f)] if f else []) + ["R:1:%d:%s" % (t + 1, hm[t])])],
            crash=lambda l, why: json.dumps(dict(x=why[-200:])))[0])
        return cs, x
    ref = {}
    for (t, (m, f)), x in parallel(first, [(t, k) for t in range(len(many)) for k in kinds]):
        if "x" in x:
            chk.violation("reading %r fails: %s" % (many[t], x["x"]), dict(hex=hm[t]))
            chk.finish()
        ref["%d%s%d" % (t + 1, m, f)] = x["h"][-1][3]
    rf = os.path.join(scratch, "many.ndjson")
    open(rf, "w").write(json.dumps(dict(good=good, g=ref, o={})) + "\n")
    hist2 = []
    for m, f in kinds:
        for _ in range(3):
            order = list(range(len(many)))
            r.shuffle(order)
            for j in range(0, len(order), 50):
                hist2.append(["N:1:" + m] + ([load(1, f)] if f else [])
                             + ["R:1:%d:%s" % (t + 1, hm[t]) for t in order[j:j + 50]])
        # all in one reader, and one text over and over
        r.shuffle(order)
        start = ["N:1:" + m] + ([load(1, f)] if f else [])
        hist2.append(start + ["R:1:%d:%s" % (t + 1, hm[t]) for t in order])
        # each twice, one after the other or with another between
        for j in range(0, len(order), 40):
            hist2.append(start + ["R:1:%d:%s" % (t + 1, hm[t]) for k, t in enumerate(order[j:j + 40])
                                  for t in ([t, t] if k % 2 else [t, order[0], t])])
        for t in r.sample(order, 3):
            hist2.append(start + ["R:1:%d:%s" % (t + 1, hm[t])] * 300)
    conform(chk, "many texts in one reader", "TraceHistory", TRACECFG, hist2, drive,
            env=dict(REF=rf), show=lambda h: "".join(
                " " + bytes.fromhex(e.split(":")[3]).decode() for e in h if e[0] == "R")[:300],
            corrupt=lambda x: [dict(x, h=x["h"][:-1] + [x["h"][-1][:3] + ["0.0"]])]
            if len(x.get("h", [])) > 9 else [], sample=False,
            counts=lambda rs: dict(texts=len(many)))
    chk.finish()


# ----------------------------------------------------------------- threads --
def C27():
    chk = Check("C27")
    cfg = """CONSTANTS
  Threads = {1, 2%s}
  Texts <- TheTexts
  Files = {0, 1}
  Shared = %s
  MaxReadings = 2
SPECIFICATION Spec
INVARIANT Undisturbed
%sCHECK_DEADLOCK FALSE
"""
    chk.model("readers of several threads",
              tlc("Parallel", cfg % (", 3" if THOROUGH else "", "FALSE", "PROPERTY Ends\n"),
                  workers=JOBS, heap="8g"))
    if not tlc("Parallel", cfg % ("", "TRUE", ""), workers=JOBS, allow_violation=True).violated:
        die("the model does not notice a common place for work")
    plain = build("drv-pure", "drv-stress", "gen-lookup-dict")
    tsan = build("drv-pure", san="thread")
    r = rng("C27")
    gen = plain + "/gen-lookup-dict"
    ent = shipped_entries()
    scratch = tempfile.mkdtemp(dir=tmpdir())
    paths = {1: compile_dict(gen, ent), 2: compile_dict(gen, {
        "กา": "c_A_4@2;P_Ug2@2", "มา": "n_O_3@2", "ตา": "t_a_1@-102,r_i_3@2"}),
        3: os.path.join(scratch, "none")}
    good = [1, 2]
    texts = ["กามา", "ตากลม", "a", "", "กรรม", "ก.ก.", "กา ตา", "เพลา", "สระ", "มา😀กา", "จระ",
             "ศาลหลักเมือง", "ฤดู", "พฤกษ์", "บริหาร", "เธอ", "เรือน", "เสียง", "น้ำ", "ไทย", "๑2x",
             "แม่ไปดูหมูที่บ้าน", "พี่ไม่มีเงินใช้แล้ว", "น้องไปโรงเรียนเช้า", "ฝนตกใส่ต้นไม้ในสวน"]
    texts += c.sample(r, list(ent), 15) + c.words(r, 150 if THOROUGH else 60, 1, 2)
    st = run_lines([plain + "/drv-stress", "-n", "0"], [t.encode().hex() for t in texts],
                   crash=lambda l, why: '{"p":0}')
    texts = [t for t, o in zip(texts, st) if o and json.loads(o)["p"] <= 40]
    hx = [t.encode().hex() for t in texts]

    def load(p, f):
        return "L:%d:%d:%s" % (p, f, paths[f])

    # what a fresh reader gives when it is alone
    def fresh(cs):
        t, m, f = cs
        x = json.loads(run_lines([plain + "/drv-pure"], [" ".join(
            ["N:1:" + m] + ([load(1, f)] if f else []) + ["R:1:%d:%s" % (t + 1, hx[t])]
            + ["O:1:" + o for o in OUTPUTS])],
            crash=lambda l, why: json.dumps(dict(x=why[-200:])))[0])
        return cs, x
    refg, refo = {}, {}
    for (t, m, f), x in parallel(fresh, [(t, m, f) for t in range(len(texts)) for m in "nb"
                                         for f in [0] + good]):
        if "x" in x:
            chk.violation("reading %r fails: %s" % (texts[t], x["x"]), dict(hex=hx[t]))
            chk.finish()
        key = "%d%s%d" % (t + 1, m, f)
        h = [e for e in x["h"] if e[0] in "RO"]
        refg[key] = h[0][3]
        for e in h[1:]:
            refo[key + e[2]] = e[3]
    rf = os.path.join(scratch, "ref.ndjson")
    open(rf, "w").write(json.dumps(dict(good=good, g=refg, o=refo)) + "\n")

    def thread(n, pool):
        h, g = [], 0
        m = r.choice("nb")
        h.append(r.choice(["N:1:" + m, "M:1:%s:1:%s" % (m, paths[1])]))
        for _ in range(n):
            x = r.random()
            if x < .04:
                h.append("N:1:" + r.choice("nb"))
            elif x < .12:
                h.append(load(1, r.choice([1, 2, 3])))
            elif x < .5 or not g:
                t = r.choice(pool)
                h.append("R:1:%d:%s" % (t + 1, hx[t]))
                g += 1
            elif x < .55:
                h.append("C:%d" % r.randint(1, g))
                g += 1
            else:
                h.append("O:%d:%s" % (r.randint(max(1, g - 2), g), r.choice(OUTPUTS)))
        return " ".join(h)

    def same(t, m, f, o):
        return " ".join(["N:1:" + m] + ([load(1, f)] if f else [])
                        + ["R:1:%d:%s" % (t + 1, hx[t]), "O:1:" + o] * 1)
    lines = []
    # the same in all threads: the first uses of everything coincide
    for t in range(len(texts)):
        m, f = r.choice("nb"), r.choice([0, 1, 2])
        lines.append("|".join(same(t, m, f, OUTPUTS[t % len(OUTPUTS)]) for _ in range(4)))
    for o in OUTPUTS:
        t = r.randrange(len(texts))
        lines.append("|".join(same(t, "b", 1, o) for _ in range(3)))
    for _ in range(3000 if THOROUGH else 400):
        pool = [r.randrange(len(texts)) for _ in range(r.choice([1, 3, 20]))]
        lines.append("|".join(thread(r.randint(10, 40), pool)
                              for _ in range(r.choice([2, 2, 3, 4, 8]))))
    r.shuffle(lines)

    def drive(exe, size):
        def f(ls):
            parts = [ls[j:j + size] for j in range(0, len(ls), size)]
            res = parallel(lambda p: run_lines(
                [exe, "p"], p, crash=lambda l, why: json.dumps(dict(p=[], x=why[-250:]))),
                parts, jobs=max(1, JOBS // 2))
            return [x for p in res for x in p]
        return f

    def corrupt(x):
        for j, h in enumerate(x["p"]):
            for k, e in enumerate(h):
                if e[0] in "RO" and len(h) > 6 and j:
                    return [dict(x, p=x["p"][:j] + [h[:k] + [e[:3] + ["0.0"]] + h[k + 1:]]
                                 + x["p"][j + 1:])]
        return []

    def show(l):
        return re.sub(r"/[^ :|]+/", "", l)[:600]
    # conflicting accesses to memory are found in whatever order they happen
    n = len(lines) if THOROUGH else len(lines) * 2 // 3
    conform(chk, "threads, accesses to memory watched", "TraceParallel", TRACECFG, lines[:n],
            drive(tsan + "/drv-pure", 8), env=dict(REF=rf), corrupt=corrupt, show=show,
            sample=False, counts=lambda rs: dict(events=sum(x.count('["') for x in rs)))
    conform(chk, "threads", "TraceParallel", TRACECFG, lines,
            drive(plain + "/drv-pure", 20), env=dict(REF=rf), corrupt=corrupt, show=show,
            sample=False, counts=lambda rs: dict(events=sum(x.count('["') for x in rs)))
    chk.cov["samples"].append(dict(threads=show(lines[0])))
    chk.assume.append("Every thread has a reader of its own. The order of steps is the "
                      "scheduler's; ThreadSanitizer reports conflicting accesses in any order, "
                      "outside libthai and libdatrie.")
    chk.finish()
