"""Texts for the reading checks."""
import itertools

CONS = [chr(c) for c in range(0x0E01, 0x0E2F) if c not in (0x0E24, 0x0E26)]
RU, LU = "ฤ", "ฦ"
SIGNS = [chr(c) for c in range(0x0E30, 0x0E3A)]           # a .. uu
LEAD = list("เแโใไ")
TONES = [chr(c) for c in range(0x0E48, 0x0E4C)]
YAO, TAIKHU, KARAN = "ๅ", "็", "์"
LETTERS = CONS + [RU, LU] + SIGNS + LEAD + [YAO, TAIKHU] + TONES + [KARAN]
SONOR = "งนมยรลว"

# One consonant for every behaviour the reading rules can tell apart at a
# place: class x final x membership in clusters
REPS = "กขคงจชซดตทธนบปผพฟภมยรลวศสหอฮณฒ"
# a smaller set
FEW = "กคตนรวอหสยบ"


def pick(r, seq, n):
    seq = list(seq)
    return [r.choice(seq) for _ in range(n)]


def upto(alphabet, n, lo=1):
    for k in range(lo, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


# ---- random syllables by a loose grammar: mostly readable, sometimes not ----
def onset(r):
    x = r.random()
    if x < .45:
        return r.choice(CONS)
    if x < .62:
        return r.choice(CONS) + r.choice("รลว")
    if x < .72:
        return "ห" + r.choice(SONOR)
    if x < .92:
        return r.choice(CONS) + r.choice(CONS)
    if x < .97:
        return r.choice(CONS) + RU
    return r.choice(CONS) + r.choice(CONS) + r.choice(CONS)


def final(r):
    x = r.random()
    if x < .35:
        return ""
    if x < .75:
        return r.choice(CONS)
    if x < .82:
        return r.choice("กคชตทมน") + "ร"
    if x < .9:
        return r.choice("ฒตธรนม") + r.choice("ิุ")
    return r.choice(CONS) + r.choice(CONS)


def karan(r):
    x = r.random()
    if x < .86:
        return ""
    if x < .93:
        return r.choice(CONS) + KARAN
    if x < .97:
        return r.choice(CONS) + r.choice("ิุ") + KARAN
    return r.choice(CONS) + r.choice(CONS) + KARAN


def syllable(r):
    t = r.choice(TONES) if r.random() < .25 else ""
    c = onset(r)
    k = r.randrange(22)
    if k < 3:
        v = c + r.choice("ิีึืุู") + t + r.choice(["", "อ", final(r), final(r)])
    elif k < 5:
        v = c + "ั" + t + r.choice(["ว", "วะ", final(r), final(r)])
    elif k < 7:
        v = c + t + r.choice(["ะ", "า", "ำ"]) + final(r)
    elif k < 9:
        v = c + t + r.choice(["อ", "ว", "ร", "รร", "อย", "วย"]) + final(r)
    elif k < 10:
        v = c + "็" + r.choice(["อ", ""]) + final(r)
    elif k < 12:
        v = "เ" + c + r.choice(["ิ", "ีย", "ือ", "็", ""]) + t + final(r)
    elif k < 14:
        v = "เ" + c + r.choice(["ี" + t + "ย", "ื" + t + "อ", t + "า", t + "อ",
                               t + "ย", t, t + "อ" + "ะ", t + "าะ", t + "ะ",
                               "ี" + t + "ยะ", "ื" + t + "อะ"]) + final(r)
    elif k < 16:
        v = r.choice("แโ") + c + t + r.choice(["", "ะ", "็"]) + final(r)
    elif k < 18:
        v = r.choice("ใไ") + c + t + r.choice(["", "", "ย", "ว"])
    elif k < 19:
        v = r.choice([RU, LU]) + r.choice(["", YAO, "า", final(r), final(r)])
    elif k < 21:
        v = c + t + final(r)
    else:
        v = c
    return v + karan(r)


# written forms: o the onset, t the tone mark, f what comes after
FORMS = ["otf", "oะt", "otะ", "oัtf", "oัtว", "oัtวะ", "otาf", "otำ", "oิtf", "oีtf", "oึtf",
         "oืtf", "oืtอ", "oุtf", "oูtf", "เotf", "เo็f", "เotะ", "แotf", "แo็f", "แotะ",
         "โotf", "โotะ", "เotาะ", "otอf", "o็อf", "เotอะ", "เotอ", "เoิtf", "เotยf", "เoีtยf",
         "เoีtยะ", "เoืtอf", "เoืtอะ", "otวf", "ใot", "ไot", "ไotย", "เotา", "otรร", "otรรf",
         "otอย", "oาtย", "เotว", "แotว", "oิtว"]


def written(form, onset, tone="", after=""):
    return form.replace("o", onset).replace("t", tone).replace("f", after)


def mutate(r, w):
    w = list(w)
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(4)
        i = r.randrange(len(w) + 1)
        if k == 0 and w:
            del w[min(i, len(w) - 1)]
        elif k == 1:
            w.insert(i, r.choice(LETTERS))
        elif k == 2 and w:
            w[min(i, len(w) - 1)] = r.choice(LETTERS)
        elif len(w) > 1:
            i = r.randrange(len(w) - 1)
            w[i], w[i + 1] = w[i + 1], w[i]
    return "".join(w)


def word(r, lo=1, hi=3):
    w = "".join(syllable(r) for _ in range(r.randint(lo, hi)))
    return mutate(r, w) if r.random() < .12 else w


def words(r, n, lo=1, hi=3, maxlen=14):
    out = set()
    while len(out) < n:
        w = word(r, lo, hi)
        if 0 < len(w) <= maxlen:
            out.add(w)
    return sorted(out)


def noise(r, n, lo=2, hi=6, alphabet=LETTERS):
    return ["".join(pick(r, alphabet, r.randint(lo, hi))) for _ in range(n)]


def sample(r, seq, n):
    seq = list(seq)
    return seq if len(seq) <= n else r.sample(seq, n)
