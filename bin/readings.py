"""Record readings of words and let the specification judge them."""
import json
import os
import re

from vlib import *

NODICT = None
IS_THAI = re.compile("[\u0e01-\u0e5b]")


def units(w):
    b = w.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def crash_record(line, why):
    w = bytes.fromhex(line).decode("utf-8")
    return json.dumps(dict(w=units(w), b=[], x=why[:200]))


def segmenter(mk, words):
    """Environment where the word segmenter knows just these words."""
    d = tempfile.mkdtemp(dir=tmpdir())
    r = subprocess.run([mk, d], env=ENV, stderr=subprocess.PIPE, input="".join(
        w.encode("utf-8").hex() + "\n" for w in sorted(set(words))).encode())
    if r.returncode:
        die("no dictionary for the segmenter: " + r.stderr.decode(errors="replace"))
    return dict(ENV, LIBTHAI_DICTDIR=d)


def record(exe, words, brk=False, dic=None, env=None):
    """One record per word, in order."""
    cmd = [exe, "-b" if brk else "-n"] + ([dic] if dic else [])
    k = min(JOBS, max(1, len(words) // 2000 + 1))
    parts = [words[j::k] for j in range(k)]
    res = parallel(lambda ws: run_lines(
        cmd, [w.encode("utf-8").hex() for w in ws], crash=crash_record, env=env), parts)
    out = [None] * len(words)
    for j, r in enumerate(res):
        out[j::k] = r
    return out


def parse_reading(text):
    """Readings of a dictionary line's data field as the specification has
    them: list of readings, each a list of [segments, tone, end]."""
    rs = []
    for alt in text.split(";"):
        r = []
        for s in alt.split(","):
            m = re.match(r"^(.)(.)(.)(.)(.)(?:@(-?\d+))?$", s)
            if not m:
                raise ValueError(s)
            r.append([m.group(1) + m.group(2) + m.group(3) + m.group(4),
                      m.group(5), int(m.group(6))])
        rs.append(r)
    return rs


def dict_file(entries):
    """Write dictionary entries {word: data} for the specification."""
    f = tempfile.NamedTemporaryFile("w", suffix=".dict.ndjson", delete=False,
                                    dir=tmpdir(), encoding="utf-8")
    with f:
        for w, d in entries.items():
            f.write(json.dumps(dict(k=units(w), r=parse_reading(d))) + "\n")
    return f.name


def shipped_entries():
    """The shipped exception data, in the order it is compiled in."""
    lines = set()
    d = os.path.join(REPO, "data")
    for f in sorted(os.listdir(d)):
        if f.endswith(".tsv"):
            for l in open(os.path.join(d, f), "rb"):
                if l.strip():
                    lines.add(l.rstrip(b"\n"))
    ent = {}
    for l in sorted(lines):
        # whether the lines are as they should be is for C21 to say
        try:
            w, t, x = l.decode("utf-8").partition("\t")
            if w and t and all(s[-1][2] == len(units(w)) for s in parse_reading(x)) \
                    and all(IS_THAI.match(ch) for ch in w):
                ent[w] = x
        except (ValueError, TypeError):
            pass
    if not ent:
        die("no shipped exception data")
    return ent


def compile_dict(gen, entries, name="d"):
    """Compile entries with the real compiler; returns the path."""
    d = tempfile.mkdtemp(dir=tmpdir())
    src = os.path.join(d, name + ".tsv")
    dst = os.path.join(d, name + ".dic")
    with open(src, "w", encoding="utf-8") as f:
        for w, x in entries.items():
            f.write("%s\t%s\n" % (w, x))
    r = subprocess.run([gen, src, dst], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=ENV, cwd=d)
    if r.returncode:
        die("dictionary compiler failed: " + r.stdout.decode(errors="replace"))
    return dst


CFG = """CONSTANT Aspect = "%s"
SPECIFICATION Spec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
"""


def corrupt_reading(aspect):
    def f(r):
        if not r.get("e"):
            return []
        out = []
        e = r["e"]
        if aspect != "tone":
            out.append(dict(r, e=e[1:]))
            out.append(dict(r, e=e + [[e[0][0], e[0][1], "k_*_", "0"]]))
        if aspect != "seg" and e[0][3]:
            t = "4" if e[0][3][-1] != "4" else "0"
            out.append(dict(r, e=[e[0][:3] + [e[0][3][:-1] + t]] + e[1:]))
        return out
    return f


def check_words(chk, name, exe, words, aspect="all", brk=False, dic=None,
                entries=None, seg=None):
    """Conformance of the readings of words (without repetition)."""
    words = list(dict.fromkeys(words))
    return conform(
        chk, name, "TraceReading", CFG % aspect, words,
        lambda ws: record(exe, ws, brk, dic, seg),
        env=dict(DICT=dict_file(entries or {})), show=str,
        replay=lambda w: dict(hex=w.encode("utf-8").hex(), driver="drv-parse",
                              mode="-b" if brk else "-n", entries=entries),
        corrupt=corrupt_reading(aspect),
        counts=lambda rs: dict(
            with_readings=sum('"e":[[' in r for r in rs),
            **(dict(with_breaks=sum('"b":[]' not in r for r in rs)) if brk else {})))
