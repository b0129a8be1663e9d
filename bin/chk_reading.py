"""Checks of the readings: C01 - C10."""
import itertools

import corpus as c
from readings import *

STEMS = ["กา", "กั", "กิ", "ปี", "คู", "เก", "เก็", "แก", "แก็", "โก", "ก", "ก็อ",
         "เกีย", "เกือ", "กัว", "กว", "กอ", "เกิ", "กืด"[:2], "กร", "กรร", "ไก", "ฤ"]


def small_pool(chk, alphabet, n, order, breaks="{}", live=False, entries="= {}",
               name=None):
    cfg = """CONSTANTS Alphabet = {%s} MaxLen = %d Order = "%s" Breaks = {%s}
Entries %s
SPECIFICATION Spec
INVARIANTS Confluent Tiled Confined PoolOK Cheap
%sCHECK_DEADLOCK FALSE
""" % (", ".join(str(ord(x)) for x in alphabet), n, order, breaks, entries,
       "PROPERTY Stops\n" if live else "")
    r = tlc("Pool", cfg, workers=JOBS, heap="8g")
    chk.model(name or "Pool %s %s<=%d" % (order, alphabet, n), r)


def C01():
    chk = Check("C01")
    d = build("drv-parse", "drv-graph", "gen-lookup-dict")
    big = THOROUGH
    small_pool(chk, "กาน.เ", 5 if big else 4, "any")
    small_pool(chk, "กรตุอ", 5 if big else 4, "any")
    small_pool(chk, "กนราห", 6 if big else 5, "left", "{}, {2}, {1, 3}", live=True)
    small_pool(chk, "กนา", 5, "any", "{}, {3}", entries="<- SomeEntries",
               name="Pool any dictionary")
    r = rng("C01")
    n = 60000 if big else 12000
    ws = c.words(r, n) + c.noise(r, n) + long_words(r, n // 10) \
        + mixed(r, n // 2) + dotted(r, n // 2) + [""]
    ws = list(dict.fromkeys(ws))
    ent = shipped_entries()
    dic = compile_dict(d + "/gen-lookup-dict", ent)
    own = special_entries(r)
    dic2 = compile_dict(d + "/gen-lookup-dict", own)
    keys, keys2 = list(ent), list(own)
    wd = dict_words(r, keys, n // 4)
    wd2 = dict_words(r, keys2, n // 4)

    def graph(name, words, args):
        def run(ws):
            return run_par([d + "/drv-graph"] + args, ws,
                           lambda l, why: json.dumps(dict(n=0, x=why[:200])))

        def corrupt(x):
            if len(x.get("o", [])) < 2:
                return []
            return [dict(x, i=x["i"][1:]), dict(x, o=x["o"] + x["o"][:1]),
                    dict(x, o=[e for e in x["o"] if e[0] != 0],
                         i=[e for e in x["i"] if e[0] != 0])]
        conform(chk, name, "TraceGraph",
                "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n",
                list(dict.fromkeys(words)), run, corrupt=corrupt,
                replay=lambda w: dict(hex=w.encode().hex(), driver="drv-graph",
                                      args=args))

    graph("shape", ws, ["-n"])
    graph("shape with word breaks", ws[::4] + wd, ["-b"])
    graph("shape with shipped dictionary", ws[::4] + wd, ["-n", dic])
    graph("shape with own dictionary", ws[::8] + wd2, ["-b", dic2])
    check_words(chk, "pieces", d + "/drv-parse", ws[::4] + long_words(r, n // 40))
    vl = very_long(r, 200 if big else 40)
    lits = long_literals(r)
    graph("shape of long texts", vl + lits, ["-n"])
    check_words(chk, "pieces of long texts", d + "/drv-parse", vl + lits[::3])
    check_words(chk, "pieces of long texts with own dictionary", d + "/drv-parse",
                long_dict_texts(r, keys2, 60 if big else 20), dic=dic2, entries=own)
    check_words(chk, "pieces with own dictionary", d + "/drv-parse", wd2,
                dic=dic2, entries=own)
    chk.finish()


def run_par(cmd, words, crash):
    k = min(JOBS, max(1, len(words) // 2000 + 1))
    parts = [words[j::k] for j in range(k)]
    res = parallel(lambda ws: run_lines(
        cmd, [w.encode("utf-8").hex() for w in ws], crash=crash), parts)
    out = [None] * len(words)
    for j, x in enumerate(res):
        out[j::k] = x
    return out


def long_words(r, n):
    out = []
    for _ in range(n):
        w = "".join(c.syllable(r) for _ in range(r.randint(5, 10)))
        out.append(w[:40])
    return out


def very_long(r, n):
    """Texts of some hundred characters, made so that many have a reading."""
    easy = ["กา", "ปลา", "นก", "มิตร", "ตลก", "จระ", "บริ", "สมุ", "ฤกษ์", "เพียร", "กรรม", "ราชะ",
            "เมือง", "ขนม", "หนู", "นายก", " ", "abc", "กทม.", "ถนน", "พร", "จักร"]
    return ["".join(c.pick(r, easy, r.randint(40, 90))) for _ in range(n)]


def long_literals(r):
    """Stretches of other characters of all lengths around powers of two."""
    out = []
    for n in sorted({x + k for x in (8, 16, 32, 64, 128, 256, 512, 1024, 4096)
                     for k in (-1, 0, 1)} | {100, 1000, 2000}):
        ch = r.choice(["a", " ", "é", "中", "-", "๑", "😀", "a "])
        lit = (ch * n)[:n]
        out += ["กา" + lit + "มา", lit + "กา", r.choice(["กา", "", "ก."]) + lit]
    return out


def long_dict_texts(r, keys, n):
    """Texts of some hundred letters with dictionary words all over."""
    easy = ["กา", "มี", "นก", "ปู", " ", "ดี"]
    return ["".join(r.choice([r.choice(keys), r.choice(easy), r.choice(easy)])
                    for _ in range(r.randint(40, 90))) for _ in range(n)]


OTHER = [" ", "  ", "a", "abc", "12", "-", "ฯ", "ๆ", "ๆ ", "๑๒", "😀", "é", "中文",
         "x y", "​", "ฺ", "ํ", "\t", "ๆๆ", "(", "%", "\\", '"', "฿", "๏", "ฯลฯ",
         "๎", "﻿", "\U0010ffff", "'", ",", "๚๛", "\0", "\0\0"]


def mixed(r, n):
    out = []
    for _ in range(n):
        parts = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            parts.append(c.syllable(r) if x < .55 else
                         r.choice(OTHER) if x < .9 else
                         r.choice(["ก", "ร.", "กทม.", "."]))
        out.append("".join(parts)[:24])
    # many readings that end before the period
    return out + [w + "." + x for w in MANY for x in ("", "มา", ".", " ก.")]


# texts that many pieces end
MANY = "หนรรกรช์ หงอฟปผ์ ผอหววฃอ์ เปลฎฤคร ปฝรลฤทร ปวลกวณรล์ โถะฉฑฤตร ไฏร้ยบววลธป์".split()


def dotted(r, n):
    out = []
    for _ in range(n):
        parts = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .4:
                parts.append("".join(c.pick(r, c.CONS, r.randint(1, 5))))
            elif x < .6:
                parts.append(c.syllable(r))
            elif x < .7:
                parts.append(r.choice(OTHER))
            parts.append(r.choice([".", ".", ".", "", " ", " .", "..", ". "]))
        out.append("".join(parts)[:24])
    # many readings that end before the period
    return out + [w + "." + x for w in MANY for x in ("", "มา", ".", " ก.")]


def dict_words(r, keys, n):
    out = []
    for _ in range(n):
        k = r.choice(keys)
        x = r.random()
        if x < .15:
            w = k
        elif x < .4:
            w = k + c.syllable(r)
        elif x < .55:
            w = c.syllable(r) + k
        elif x < .7:
            w = k + r.choice(keys)
        elif x < .8:
            w = c.syllable(r) + k + c.syllable(r)
        elif x < .87:
            w = k + r.choice(c.LETTERS)
        elif x < .93:
            w = c.mutate(r, k)
        else:
            w = r.choice(OTHER + ["."]) + k + r.choice(OTHER + [".", " ."])
        out.append(w[:40])
    return out


def C02():
    chk = Check("C02")
    d = build("drv-parse")
    r = rng("C02")
    tails = ["", "า", "ะ", "ิ", "ร", "รร", "ัน", "น", "อ", "าน", "ิน", "ุ", "เก",
             "กา", "์", "ี", "่า", "ว", "ย"]
    ws = []
    pairs = [a + b for a in c.CONS for b in c.CONS]
    for p in pairs:
        for t in tails:
            ws.append(p + t)
        for l in "เแโไ":
            ws.append(l + p)
            ws.append(l + p + "น")
        ws.append("เ" + p + "า")
        ws.append("มิ" + p + "า")        # linked from before
    check_words(chk, "pairs of consonants", d + "/drv-parse", ws, "seg")
    n = 150000 if THOROUGH else 20000
    more = []
    for _ in range(n):
        k = r.randrange(4)
        p = r.choice(pairs)
        if k == 0:
            w = p + r.choice(c.CONS) + r.choice(tails)
        elif k == 1:
            w = r.choice(STEMS) + p + r.choice(tails)
        elif k == 2:
            w = r.choice(["เ", "แ", "โ", "ใ", "ไ"]) + p + r.choice(tails + c.LETTERS)
        else:
            w = p + r.choice(c.LETTERS) + r.choice(c.LETTERS + [""])
        more.append(w)
    more += ["".join(t) for t in itertools.product(
        "กขคจชซดตทธนบปพมยรลวศสหอ" if THOROUGH else "กคจตทนบพรลวสหอ", repeat=3)]
    more += [a + b + x + "า" for a in "กคจชทธนบปภมวสหอด" for b in "รลวด"
             for x in "รลวนกตอเ"]
    more += ["".join(t) for t in itertools.product("กจบสหรตอ", "รตห", "รกิะาเ",
                                                  ["", "า", "ิ", "ร", "น"])]
    more += [c.written(f, p, r.choice(["", "", r.choice(c.TONES)]), c.final(r))
             for p in pairs for f in (c.FORMS if THOROUGH else c.sample(r, c.FORMS, 7))]
    check_words(chk, "onsets in context", d + "/drv-parse", more, "seg")
    check_words(chk, "words", d + "/drv-parse",
                c.words(r, 60000 if THOROUGH else 12000), "seg")
    chk.finish()


def C03():
    chk = Check("C03")
    d = build("drv-parse")
    r = rng("C03")
    marks = list("ะัาำิีึืุูๅ็่้์อวยรกน") + ["เ"]
    ws = []
    for l in ["", "เ", "แ", "โ", "ใ", "ไ"]:
        for t in c.upto(marks, 3, 0):
            ws.append(l + "ก" + t)
    check_words(chk, "all forms up to three marks", d + "/drv-parse", ws, "seg")
    onsets = ["กร", "หน", "สน", "ร", "อ", "ห", "กว", "ทร", "ขล", "ย", "ว", "พ", "กฤ",
              "หร", "จร", "บร", "ตล", "ธ", "อย", "ส", "ปล"]
    n = 200000 if THOROUGH else 30000
    more = []
    for _ in range(n):
        o = r.choice(onsets)
        l = r.choice(["", "", "เ", "แ", "โ", "ใ", "ไ"])
        k = r.choice([1, 2, 3, 3, 4, 5])
        more.append(l + o + "".join(c.pick(r, marks + list("๊๋ดมส"), k)))
    for l in ["", "เ", "แ", "โ", "ใ", "ไ"]:
        for o in onsets:
            for t in c.upto(marks, 2, 0):
                more.append(l + o + t)
    more += [c.written(f, o, t, a) for f in c.FORMS for o in c.CONS for t in ["", "่"]
             for a in ["", "น", "ก", "ยา"]]
    more += c.words(r, n // 3)
    check_words(chk, "forms with other onsets", d + "/drv-parse", more, "seg")
    chk.finish()


def C04():
    chk = Check("C04")
    d = build("drv-parse")
    r = rng("C04")
    stems = STEMS if THOROUGH else ["กา", "กั", "ติ", "กุ", "เก", "แก็", "โก", "ก", "กรร",
                                   "เกีย", "ฤ", "กั่"]
    ws = []
    for s in stems:
        for f in c.CONS + [c.RU, c.LU]:
            for t in ["", "ร", "ิ", "ุ", "ร์", "์", "ิ์", "ุ์", "ู์", "า", "ะ", "ิน",
                      "รา", "รม", "ิก", "ุก", "เ", "เก", "่", "รี", "กา"]:
                ws.append(s + f + t)
    for s in (["กา", "จั", "ติ", "ก", "โก"] if not THOROUGH else STEMS):
        for f in c.CONS:
            for g in c.CONS:
                for t in ["์", "", "า"] + (["ิ์", "ุ์", "ิ", "ร์"] if THOROUGH else []):
                    ws.append(s + f + g + t)
    check_words(chk, "finals and what follows them", d + "/drv-parse", ws, "seg")
    n = 150000 if THOROUGH else 25000
    more = []
    for _ in range(n):
        k = r.randrange(4)
        s = r.choice(STEMS)
        if k == 0:
            s += r.choice(c.TONES)
        w = s + r.choice(c.CONS) + r.choice(
            [r.choice(c.CONS) + r.choice(c.CONS) + "์",
             r.choice(c.CONS) + r.choice("ิุ") + r.choice(["์", "", "ก"]),
             r.choice(c.CONS) + r.choice(["์", "ร์", "า", "ร", "ี", "่า"]),
             r.choice("ิุ") + r.choice(c.LETTERS),
             "ร" + r.choice(c.LETTERS) + r.choice(["", "์", "ิ์"]),
             r.choice(c.LETTERS) + r.choice(c.LETTERS)])
        if r.random() < .3:
            w += c.syllable(r)
        more.append(w)
    more += [c.written(f, "ก", "", a + b) for f in c.FORMS if "f" in f for a in c.CONS
             for b in ["", "า", "ร", "ิ", "์", "เก"]]
    more += c.words(r, n // 3)
    check_words(chk, "finals in context", d + "/drv-parse", more, "seg")
    chk.finish()


def C05():
    chk = Check("C05")
    d = build("drv-parse")
    r = rng("C05")
    ws = []
    pre = [""] + c.CONS + c.LEAD + [a + b for a in "กสหพ" for b in "ตนรก"] \
        + ["กา" + x for x in c.CONS]
    for p in pre:
        for l in (c.RU, c.LU):
            for t in [""] + c.LETTERS:
                ws.append(p + l + t)
    for p in ["", "ก", "ส", "พ", "น", "ว", "ห", "ม", "ศ", "ค", "ต", "ท", "ป"]:
        for a in c.LETTERS:
            for b in c.LETTERS if THOROUGH else c.CONS[::2] + c.SIGNS + ["เ", "์", "ฤ"]:
                ws.append(p + c.RU + a + b)
    check_words(chk, "all neighbours", d + "/drv-parse", ws, "seg")
    n = 150000 if THOROUGH else 25000
    more = []
    for _ in range(n):
        w = r.choice(["", "", r.choice(c.CONS), r.choice(c.CONS), c.syllable(r)]) \
            + r.choice("ฤฤฤฦ") + r.choice(
                ["", "ๅ", c.syllable(r), r.choice(c.CONS), c.final(r) + c.karan(r),
                 "ษ" + c.syllable(r), "ท" + r.choice(c.LETTERS),
                 "".join(c.pick(r, c.LETTERS, 2))])
        if r.random() < .3:
            w += c.syllable(r)
        more.append(w)
    check_words(chk, "in words", d + "/drv-parse", more, "seg")
    chk.finish()


def C06():
    chk = Check("C06")
    d = build("drv-parse")
    r = rng("C06")
    forms = ["{c}{t}", "{c}{t}า", "{c}ิ{t}", "{c}ี{t}", "{c}ึ{t}", "{c}ื{t}อ", "{c}ุ{t}",
             "{c}ู{t}", "{c}{t}ะ", "{c}{t}ำ", "เ{c}{t}", "เ{c}{t}ะ", "แ{c}{t}", "แ{c}{t}ะ",
             "โ{c}{t}", "โ{c}{t}ะ", "ใ{c}{t}", "ไ{c}{t}", "เ{c}{t}า", "เ{c}{t}าะ",
             "{c}{t}อ", "เ{c}{t}อ", "เ{c}{t}อะ", "เ{c}ี{t}ย", "เ{c}ี{t}ยะ",
             "เ{c}ื{t}อ", "เ{c}ื{t}อะ", "{c}ั{t}ว", "{c}ั{t}วะ", "{c}ั{t}", "{c}ื{t}",
             "เ{c}ิ{t}", "{c}{t}ว", "{c}รร{t}", "{c}็อ{t}", "เ{c}็{t}", "แ{c}็{t}"]
    ws = []
    for x in c.CONS:
        for f in forms:
            for t in [""] + c.TONES:
                for e in ["", "ก", "น", "ด", "บ", "ย"]:
                    ws.append(f.format(c=x, t=t) + e)
    check_words(chk, "every initial, form, mark and kind of final",
                d + "/drv-parse", ws, "tone")
    more = []
    pairs = [a + b for a in c.CONS for b in c.CONS]
    for p in pairs:
        for t in [""] + c.TONES:
            for f in ["{c}{t}าน", "{c}ิ{t}ก"] + (["โ{c}{t}", "{c}{t}ะ", "{c}{t}น"]
                                              if THOROUGH else []):
                more.append(f.format(c=p, t=t))
    for _ in range(100000 if THOROUGH else 15000):
        f = r.choice(forms).format(c=r.choice(pairs), t=r.choice([""] + c.TONES))
        more.append(f + r.choice(["", "ก", "น", r.choice(c.CONS)])
                    + r.choice(["", "", c.syllable(r)]))
    more += c.words(r, 60000 if THOROUGH else 10000)
    check_words(chk, "clusters and leading consonants", d + "/drv-parse", more,
                "tone")
    chk.finish()


SYLS = ["k_A_0", "krOt1", "c_ay3", "s_an4", "?_aw0", "plXg2", "hwAn4", "n_iw0",
        "T_C_0", "r_Up2", "m_W_0", "J_Yk3"]


def special_entries(r):
    """A dictionary with all shapes of entries over a few letters: prefixes of
    one another, one-letter words, several readings, half syllables."""
    letters = "กนาเรต์"
    ent = {}
    keys = set()
    while len(keys) < 60:
        k = "".join(c.pick(r, letters, r.choice([1, 2, 2, 3, 3, 4, 5, 6])))
        keys.add(k)
    # some keys that are prefixes of others
    for k in r.sample(sorted(keys), 20):
        keys.add(k + r.choice("กนตเ") + r.choice(["", "า"]))
    if "ก" in keys:
        keys.discard("ก")
    for k in sorted(keys):
        rs = set()
        for _ in range(r.choice([1, 1, 2, 3])):
            cuts = sorted(r.sample(range(1, len(k)), r.randint(0, min(2, len(k) - 1)))) \
                + [len(k)]
            syl = []
            last = 0
            for e in cuts:
                if r.random() < .2:
                    # an inner node apart from those of the rules, with one
                    # pair of labels only
                    syl.append("g_e_4@%d" % -(last * 100 + e + 30))
                    syl.append("%s@%d" % ("b_en2", e))
                else:
                    syl.append("%s@%d" % (r.choice(SYLS), e))
                last = e
            rs.add(",".join(syl))
        ent[k] = ";".join(sorted(rs))
    return ent


def wide_entries(r):
    """Words of up to 40 letters with up to 20 readings or 12 syllables."""
    ent = {}
    for n in list(range(1, 21)) + [25, 30, 40]:
        k = "".join(c.pick(r, "กนามรดิ", n))
        k = k if n > 1 else "ณ"
        for rs, ss in ((min(n, 4), 2), (1, min(n, 12)), (20, 1)):
            key = k + r.choice("กนด") * r.randint(0, 3)
            alts = set()
            for _ in range(rs):
                m = min(ss, len(key))
                cuts = sorted(r.sample(range(1, len(key)), m - 1)) + [len(key)]
                alts.add(",".join("%s@%d" % (r.choice(SYLS), e) for e in cuts))
            data = ""
            for a in sorted(alts):
                if len(key.encode()) + len(data) + len(a) < 250:
                    data += (";" if data else "") + a
            ent[key] = data
    return {k: x for k, x in ent.items() if x}


def C07():
    chk = Check("C07")
    d = build("drv-parse", "gen-lookup-dict", "mk-brk")
    r = rng("C07")
    n = 60000 if THOROUGH else 9000
    gen = d + "/gen-lookup-dict"
    small_pool(chk, "กนา", 5, "any", "{}, {3}", entries="<- SomeEntries",
               name="Pool any dictionary")
    ent = shipped_entries()
    dic = compile_dict(gen, ent)
    keys = list(ent)
    ws = keys + [k + t for k in keys for t in ["กา", "เก", "า", "์", "ก", " ก", ".", "ก."]] \
        + [t + k for k in keys for t in ["กา", "ก", "ก ", "ก.", "เก"]]
    check_words(chk, "shipped dictionary", d + "/drv-parse",
                ws + dict_words(r, keys, n), dic=dic, entries=ent)
    check_words(chk, "shipped dictionary, word breaks", d + "/drv-parse",
                keys + dict_words(r, keys, n // 2), brk=True, dic=dic, entries=ent)
    for i in range(6 if THOROUGH else 2):
        own = special_entries(r)
        dic2 = compile_dict(gen, own)
        ws = c.noise(r, n // 2, 1, 7, "กนาเรต์") + dict_words(r, list(own), n // 3) \
            + [x for x in c.upto("กนาเรต์", 4)]
        check_words(chk, "own dictionary %d" % (i + 1), d + "/drv-parse", ws,
                    dic=dic2, entries=own)
        check_words(chk, "own dictionary %d, word breaks" % (i + 1),
                    d + "/drv-parse",
                    mixed(r, n // 8) + dict_words(r, list(own), n // 4),
                    brk=True, dic=dic2, entries=own)
        # boundaries inside and right after dictionary words
        ts = c.noise(r, n // 3, 3, 8, "กนาเรต์") + dict_words(r, list(own), n // 6)
        check_words(chk, "own dictionary %d, boundaries anywhere" % (i + 1),
                    d + "/drv-parse", ts, brk=True, dic=dic2, entries=own,
                    seg=segmenter(d + "/mk-brk", seg_words(r, [
                        t for t in ts if set(t) <= set(c.LETTERS)], n // 12)))
    # dictionary words that extend over what would be a token boundary
    odd = {"ฯ": "p_ay0@1", "กๆ": "k_C_0@2",
           "นา": "n_A_0@2", "นาย": "n_A_0@2,y_a_3@3", "กาน": "w_an0@3"}
    dic3 = compile_dict(gen, odd)
    ws = list(c.upto("กานย.ฯๆ ", 4))
    check_words(chk, "keys with other characters", d + "/drv-parse", ws,
                dic=dic3, entries=odd)
    # many readings, long words, long readings
    wide = wide_entries(r)
    dic4 = compile_dict(gen, wide)
    check_words(chk, "wide entries", d + "/drv-parse",
                list(wide) + dict_words(r, list(wide), n // 10), dic=dic4, entries=wide)
    # far from the beginning of the text
    for nm, dc, en in (("shipped", dic, ent), ("own", dic2, own), ("wide", dic4, wide)):
        check_words(chk, "long texts, %s dictionary" % nm, d + "/drv-parse",
                    long_dict_texts(r, list(en), 80 if THOROUGH else 15), dic=dc, entries=en)
    # without any entry: rule readings
    empty = compile_dict(gen, {})
    check_words(chk, "empty dictionary", d + "/drv-parse", keys + c.words(r, n // 4),
                dic=empty, entries={})
    chk.finish()


def all_chars():
    """Every character that can stand alone as a text."""
    return [chr(x) for x in range(0x10000) if not 0xD800 <= x < 0xE000]


def C08():
    chk = Check("C08")
    d = build("drv-parse", "gen-lookup-dict")
    r = rng("C08")
    ws = ["กา%sมา" % x for x in all_chars()]
    ws = [w for w in ws if "\n" not in w]
    if not THOROUGH:
        # everything near the Thai block, and a sample of the rest
        near = [w for w in ws if ord(w[2]) < 0x250 or 0xD80 <= ord(w[2]) < 0x1000
                or 0x2000 <= ord(w[2]) < 0x2100 or ord(w[2]) >= 0xFF00]
        ws = near + r.sample(ws, 6000)
    ws += ["กา%sมา" % chr(x) for x in r.sample(range(0x10000, 0x110000), 500)]
    check_words(chk, "every character between syllables", d + "/drv-parse", ws)
    odd = [chr(x) for x in range(0x0E01, 0x0E5C)] + list(" .aé中😀") + ["฀", "๿"]
    two = [a + b for a in odd for b in odd]
    if not THOROUGH:
        two = r.sample(two, 4000)
    n = 60000 if THOROUGH else 12000
    check_words(chk, "mixed texts", d + "/drv-parse",
                two + ["ก" + x + "ก" for x in r.sample(two, 1000)] + mixed(r, n)
                + ["".join(c.pick(r, odd, r.randint(1, 5))) for _ in range(n)] + OTHER)
    lits = long_literals(r)
    check_words(chk, "long stretches", d + "/drv-parse", lits)
    check_words(chk, "many stretches", d + "/drv-parse", [
        "".join(r.choice(["กา", "มี", "นก"]) + r.choice(OTHER) for _ in range(k))
        for k in (8, 16, 17, 32, 33, 64, 65, 100, 130) for _ in range(3)])
    check_words(chk, "mixed texts with word breaks", d + "/drv-parse",
                lits[::4] + mixed(r, n // 2) + OTHER + two[:1000], brk=True)
    ent = shipped_entries()
    dic = compile_dict(d + "/gen-lookup-dict", ent)
    check_words(chk, "mixed texts with dictionary", d + "/drv-parse",
                [r.choice(OTHER) + r.choice(list(ent)) + r.choice(OTHER)
                 for _ in range(n // 6)] + mixed(r, n // 6), dic=dic, entries=ent)
    chk.finish()


def C09():
    chk = Check("C09")
    d = build("drv-parse", "gen-lookup-dict", "mk-brk")
    r = rng("C09")
    small_pool(chk, "กา. ", 5 if THOROUGH else 4, "any", "{}, {1, 2}")
    ws = list(c.upto("กา.รx เ", 6 if THOROUGH else 5))
    ws += [x for x in c.CONS] + [x + "." for x in c.CONS] \
        + [x + " " for x in c.CONS] + [" " + x for x in c.CONS]
    ws += [a + b + "." for a in c.CONS for b in c.CONS]
    ws += [a + b + s for a in c.CONS[::3] for b in c.CONS[::3] for s in [" ", ".า", ". ", "..", ".ก"]]
    for k in range(1, 7):
        for p in ["", " ", ".", "กา", "x", "1", "ๆ", "ก.", "กา "]:
            for s in ["", ".", " ", ". ", "..", ".ก", "า.", ".กา", ".x"]:
                for _ in range(4):
                    ws.append(p + "".join(c.pick(r, c.CONS, k)) + s)
    check_words(chk, "periods and spaces", d + "/drv-parse", ws)
    n = 60000 if THOROUGH else 12000
    check_words(chk, "abbreviations in texts", d + "/drv-parse", dotted(r, n))
    check_words(chk, "with word breaks", d + "/drv-parse", dotted(r, n // 2)
                + ws[::7], brk=True)
    ts = dotted(r, n // 3) + c.noise(r, n // 3, 2, 8, "กรนา. ")
    check_words(chk, "with boundaries anywhere", d + "/drv-parse", ts, brk=True,
                seg=segmenter(d + "/mk-brk", ["ก", "กร", "นา", "า", "รก", "นก", "รนก"]))
    ent = shipped_entries()
    dic = compile_dict(d + "/gen-lookup-dict", ent)
    check_words(chk, "with dictionary", d + "/drv-parse",
                [k + s for k in r.sample(list(ent), min(len(ent), 150))
                 for s in [".", ". ", "..", " .", ".กา"]]
                + ["ก." + k + "." for k in ent] + dotted(r, n // 8),
                dic=dic, entries=ent)
    chk.finish()


WORDS = """ไป มา กิน ข้าว นอน บ้าน โรงเรียน ภาษา ไทย อ่าน ว่า คน รัก แม่ น้ำ ตา กลม มาก กว่า
สวัสดี ครับ ประเทศ รถ ไฟ ฟ้า ทำ งาน วัน นี้ พรุ่งนี้ อากาศ ร้อน หนาว เพชร กระทรวง ศึกษา ธิการ
มหาวิทยาลัย เกษตร ศาสตร์ พระ ราช วัง ตลาด สมุด ดินสอ ตำรวจ ทหาร ธรรม ชาติ จราจร บริษัท จำกัด
ฤดู ฤกษ์ พฤกษา อังกฤษ ทฤษฎี สามารถ จักรยาน เทศบาล จิตรกร มิตร เมตตา กรุณา สมาคม ธนาคาร""".split()


def seg_words(r, texts, n):
    """Words for the segmenter: pieces of texts, cut anywhere."""
    out = set()
    texts = [t for t in texts if t]
    while len(out) < n:
        t = r.choice(texts)
        i = r.randrange(len(t))
        out.add(t[i:i + r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])])
    return out


def C10():
    chk = Check("C10")
    d = build("drv-parse", "gen-lookup-dict", "mk-brk")
    r = rng("C10")
    small_pool(chk, "กนา", 5, "any", "{}, {1}, {2}, {2, 3}, {1, 4}")
    n = 60000 if THOROUGH else 8000
    real = ["".join(c.pick(r, WORDS, r.randint(1, 5))) for _ in range(n)]
    real += [w for w in WORDS]
    real += [r.choice([" ", "x", "."]).join(c.pick(r, WORDS, 2)) for _ in range(n // 4)]
    check_words(chk, "sentences with word breaks", d + "/drv-parse", real, brk=True)
    check_words(chk, "random words with word breaks", d + "/drv-parse",
                c.words(r, 3 * n // 2), brk=True)
    many = ["".join(c.pick(r, WORDS, r.randint(12, 40))) for _ in range(n // 80)]
    many += ["".join(c.pick(r, WORDS, k)) for k in (60, 90, 130, 200, 270)]
    many += [r.choice([" ", "x", ""]).join(c.pick(r, WORDS, 70)) for _ in range(3)]
    check_words(chk, "long sentences with word breaks", d + "/drv-parse", many,
                brk=True)
    # with other words for the segmenter, boundaries fall anywhere
    thai = [x for x in c.LETTERS]
    for i in range(16 if THOROUGH else 5):
        if i % 2:
            ts = c.noise(r, n // 3, 3, 9, "กรนวหตาิัะเ์ฤ") + c.words(r, n // 3)
        else:
            ts = c.words(r, 2 * n // 3, 1, 2, 12)
        ts = [t for t in ts if set(t) <= set(thai)]
        env = segmenter(d + "/mk-brk", seg_words(r, ts, len(ts) // r.choice([2, 4, 8])))
        ts += [t for t in mixed(r, n // 8) + dotted(r, n // 8)]
        check_words(chk, "other words for the segmenter %d" % (i + 1),
                    d + "/drv-parse", ts, brk=True, seg=env)
    # between letters that go together otherwise
    head = [v + a + b for v in ["", "เ", "โ", "แ"] for a in "กขคจตทบปผพฟสศหอนมยรลวธภ"
            for b in "รลวนมยฤดทตกหง"]
    tail = ["รา", "รม", "ร", "รร", "นา", "น", "ดี", "วา", "ยะ", "ลก", "มา", "ตร", "กะ", "หา", "ฤก"]
    ts = c.sample(r, [x + y for x in head for y in tail], n // 2 * 5)
    ts += [z + x + y for x in head if x[-1] in "รฤ" for y in ("รา", "รม", "นา", "น")
           for z in ("", "กา")]
    check_words(chk, "between letters that go together", d + "/drv-parse", ts, brk=True,
                seg=segmenter(d + "/mk-brk", head + tail + ["กา"]))
    check_words(chk, "sentences without word breaks", d + "/drv-parse",
                real[:n // 2] + WORDS)
    ent = shipped_entries()
    dic = compile_dict(d + "/gen-lookup-dict", ent)
    keys = list(ent)
    check_words(chk, "dictionary words with word breaks", d + "/drv-parse",
                [r.choice(["", r.choice(WORDS)]) + r.choice(keys)
                 + r.choice(["", r.choice(WORDS)]) for _ in range(n // 2)],
                brk=True, dic=dic, entries=ent)
    chk.finish()
