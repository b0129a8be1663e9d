"""Checks of the graph container and of lattices: C13, C24."""
import itertools

from readings import *

TRACECFG = "SPECIFICATION Spec\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n"


def spread(exe, lines, per=200):
    """Answers of a driver to lines, shared out to several processes."""
    def crash(line, why):
        return json.dumps(dict(x=why[:200]))
    k = min(JOBS, len(lines) // per + 1)
    res = parallel(lambda p: run_lines(exe, p, crash=crash),
                   [lines[j::k] for j in range(k)])
    out = [None] * len(lines)
    for j, x in enumerate(res):
        out[j::k] = x
    return out


def small_ops():
    ops = []
    for g in (0, 1):
        for f, t in ((0, 1), (0, 2), (1, 2)):
            for l in (0, 1):
                ops.append("a:%d:%d:%d:%d:%d" % (g, f, t, l, t))
                ops.append("r:%d:%d:%d:%d:%d" % (g, f, t, l, t))
            ops.append("d:%d:%d:%d" % (g, f, t))
        for h in (0, 1):
            ops += ["%s:%d:%d" % (o, g, h) for o in "u=c"]
        ops.append("m:%d:%d" % (g, 1 - g))
    return ops


def some_op(r, typ, nodes):
    g, h = r.randint(0, 2), r.randint(0, 2)
    f, t = r.choice(nodes), r.choice(nodes)
    k = r.randint(0, 19)
    lab = "%d:%d" % (r.randint(0, 3), r.randint(0, 9))
    if k < 9:
        return "a:%d:%d:%d:%s" % (g, f, t, lab)
    if k < 13:
        return "r:%d:%d:%d:%s" % (g, f, t, lab)
    if k < 15:
        return "d:%d:%d:%d" % (g, f, t)
    if k < 17 and typ == "S":
        return "s:%d:%d:%s" % (g, f, ",".join(
            "%d.%d" % (r.randint(0, 3), r.choice(nodes)) for _ in range(r.randint(1, 4))))
    o = r.choice("uu=cm")
    if o == "m" and g == h:
        o = "u"
    return "%s:%d:%d" % (o, g, h)


def dense_history(r):
    """Many labels between few nodes, or many nodes, far apart and below zero."""
    typ = r.choice("STF")
    if r.randint(0, 1):
        nodes, labels = r.sample(range(-1, 9), r.choice([1, 2, 3])), r.choice([12, 35, 70])
    else:
        nodes = r.sample([0, 9, 63, 64, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65536,
                          10 ** 6, 2 ** 31 - 1, -2, -102, -999, -32769, -10203, -2 ** 31], 12)
        labels = r.choice([1, 4])
    ops = []
    for _ in range(r.choice([40, 80, 160])):
        g = r.choice([0, 0, 0, 1])
        f, t, l = r.choice(nodes), r.choice(nodes), r.randrange(labels)
        k = r.randint(0, 99)
        ops.append("a:%d:%d:%d:%d:%d" % (g, f, t, l, r.randint(0, 9)) if k < 70 else
                   "r:%d:%d:%d:%d:%d" % (g, f, t, l, r.randint(0, 9)) if k < 92 else
                   "d:%d:%d:%d" % (g, f, t) if k < 93 else
                   "%s:%d:%d" % (r.choice("u=c"), r.randint(0, 2), g))
    return typ + " " + " ".join(ops)


def C13():
    chk = Check("C13")
    # the model: two views of one set
    r = tlc("DagViews", """CONSTANTS
  Graphs = {0, 1}
  Nodes = {0, 1}
  Labels = {"a", "b"}
SPECIFICATION Spec
INVARIANT ViewsAgree
INVARIANT NoDuplicates
PROPERTY Refinement
VIEW View
CHECK_DEADLOCK FALSE
""", workers=JOBS, heap="6g")
    chk.model("two views of one set", r)
    d = build("drv-dag")
    r = rng("C13")
    ops = small_ops()
    start = "a:0:0:1:0:1 a:0:0:1:1:1 a:0:1:2:0:2 a:1:0:1:0:3 a:1:0:2:1:2"
    lines = []
    for typ in "STF":
        for n in (1, 2) + ((3,) if THOROUGH and typ == "S" else ()):
            for h in itertools.product(ops, repeat=n):
                lines.append(typ + " " + start + " " + " ".join(h))
    for _ in range(20000 if THOROUGH else 3000):
        typ = r.choice("STF")
        nodes = r.sample(range(-1, 9), r.choice([2, 3, 4, 6]))
        lines.append(typ + " " + " ".join(some_op(r, typ, nodes)
                                          for _ in range(r.randint(5, 40))))

    def corrupt(x):
        h = x["h"]
        for k in range(len(h) - 1, -1, -1):
            s = h[k]
            if s["g"] and len(s["g"][0][1]["o"]) > 1:
                g0, o = s["g"][0]

                def put(**kw):
                    return dict(x, h=h[:k] + [dict(s, g=[[g0, dict(o, **kw)]] + s["g"][1:])]
                                + h[k + 1:])
                return [put(o=o["o"][1:]), put(i=o["i"] + o["i"][:1]), put(ex=o["ex"][1:]),
                        put(od=[[o["od"][0][0], o["od"][0][1] + 1]] + o["od"][1:]),
                        dict(x, h=h[:k] + [dict(s, r=1 - abs(s["r"]) if s["r"] >= 0 else 1)]
                             + h[k + 1:]),
                        dict(x, h=h[:k] + [dict(s, g=s["g"][1:])] + h[k + 1:])]
        return []
    conform(chk, "histories", "TraceDag", TRACECFG, lines,
            lambda ls: spread([d + "/drv-dag"], ls), corrupt=corrupt, sample=False,
            counts=lambda rs: dict(operations=sum(x.count('"p"') for x in rs)))
    conform(chk, "dense histories", "TraceDag", TRACECFG,
            [dense_history(r) for _ in range(300 if THOROUGH else 48)],
            lambda ls: spread([d + "/drv-dag"], ls, 6), corrupt=corrupt, sample=False,
            counts=lambda rs: dict(operations=sum(x.count('"p"') for x in rs)))
    chk.finish()


# ---------------------------------------------------------------- lattices --
def latt_ops():
    ops = []
    for k in "fct":
        ops += ["%sn:1" % k, "%sj:1" % k if k != "f" else "fe:1:7"]
        for x, y in ((1, 1), (1, 2), (2, 1)):
            ops += ["%s%s:%d:%d" % (k, o, x, y) for o in "y="]
            if x != y:
                ops.append("%sm:%d:%d" % (k, x, y))
            if k == "f" or k == "c" and x != y:
                ops.append("%su:%d:%d" % (k, x, y))
            if k != "f":
                ops += ["%s%s:%d:%d" % (k, o, x, y) for o in "k+"]
    return ops + ["fk:1:3:0", "fk:2:4:1.2", "fS:1:2", "fS:1:1.0", "f+:1:0", "f+:1:1", "f+:2:-",
                  "f+:1:0x2", "f+:1:0x0", "f+:2:0x4.2x1", "fk:2:4:0x9"]


def latt_op(r):
    k = r.choice("ffcct")
    x, y = r.randint(1, 3), r.randint(1, 3)
    if k == "f":
        s = "-" if r.randint(0, 15) == 0 else ".".join(
            str(r.randint(0, 5)) + r.choice(["", "", "x%d" % r.randint(1, 4)]) for _ in range(r.choice([1, 1, 1, 2, 3])))
        o = r.choice("kS++++++une=ym")
        if o in "k":
            return "fk:%d:%d:%s" % (x, r.randint(-3, 9), s)
        if o in "S+":
            return "f%s:%d:%s" % (o, x, s)
        if o == "e":
            return "fe:%d:%d" % (x, r.randint(-3, 9))
    else:
        o = r.choice("k++++uujjn=ym" if k == "c" else "k+++jjn=ym")
    if o in "nj":
        return "%s%s:%d" % (k, o, x)
    if o == "m" and x == y:
        o = "="
    if o == "u" and (r.randint(0, 2) or k == "c" and x == y):
        o = "+" if k == "c" else "u"
    return "%s%s:%d:%d" % (k, o, x, y)


def latt_small(h):
    """Histories whose chains and lattices stay small (doubling them over and
    over gives records too large to judge)."""
    c, t = [0] * 4, [0] * 4
    for o in h:
        f = o.split(":")
        k, op, x = f[0][0], f[0][1], int(f[1])
        y = int(f[2]) if k != "f" and len(f) > 2 else 0
        if k == "c":
            c[x] = {"n": 0, "k": 1, "+": c[x] + 1, "u": c[x] + c[y], "j": c[x]}.get(op, c[y])
        elif k == "t":
            t[x] = {"n": 0, "k": c[y], "+": t[x] + c[y] + 1, "j": t[x]}.get(op, t[y])
        if max(c + t) > 60:
            return False
    return True


def large_latt(r):
    """Groups of many alternatives, strings and chains of many pieces."""
    def string(n):
        return ".".join("%d%s" % (r.randint(0, 5), r.choice(["", "", "", "x%d" % r.randint(1, 99)]))
                        for _ in range(r.randint(1, n)))
    h = []
    n, k = r.choice([(3, 60), (6, 40), (30, 12), (2, 25)])
    for _ in range(k):
        h.append("f+:%d:%s" % (r.choice([1, 1, 2]), string(n)))
    h += ["fe:1:12", "fy:3:1", "fu:2:1", "f+:3:" + string(n), "fu:1:3", "f=:3:2"]
    h += ["fk:3:%d:%s" % (r.choice([70000, -10203]), string(40))]
    for _ in range(r.choice([10, 20, 40])):
        h.append("c+:1:3" if r.randint(0, 5) else "c+:1:2" if k < 30 else "c+:2:3")
        if r.randint(0, 4) == 0:
            h += ["fk:3:%d:%s" % (r.randint(0, 99), string(4))]
    h += ["cy:2:1", "cj:2", "t+:1:1", "t+:1:2", "ty:2:1", "tj:2"]
    h += r.choice([["t+:3:2"] * 9, ["cu:2:1", "cj:2"], ["t+:1:1", "tj:1"]])
    return " ".join(h)


def C24():
    chk = Check("C24")
    res = tlc("LatticeMachine", """CONSTANTS
  Strings <- TheStrings
  Ends = {1}
  Places = {1, 2}
  MaxGroups = 3
  MaxChains = 2
  MaxOps = %d
SPECIFICATION Spec
INVARIANT Joining
PROPERTY Local
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
""" % (7 if THOROUGH else 6), workers=JOBS, heap="8g")
    chk.model("groups, chains and lattices", res)
    d = build("drv-latt")
    r = rng("C24")
    ops = latt_ops()
    start = "fk:1:1:0 f+:2:1 f+:2:0.2 fe:2:5 fS:3:2 c+:1:1 c+:1:3 c+:1:2 ck:2:3 c+:2:3 t+:1:1 t+:1:2 tk:2:1"
    lines = [start + " " + " ".join(h) for n in (1, 2)
             for h in itertools.product(ops, repeat=n)]
    n = 12000 if THOROUGH else 2500
    while n:
        h = [latt_op(r) for _ in range(r.randint(8, 40))]
        if latt_small(h):
            lines.append(" ".join(h))
            n -= 1

    def corrupt(x):
        h = x["h"]
        for k in range(len(h) - 1, -1, -1):
            s = h[k]
            cs = [g for g in s["g"] if g[0] == "c" and len(g[2]) > 1 and len(g[2][0][1]) > 1]
            if cs:
                c = cs[0]
                rest = [g for g in s["g"] if g is not c]

                def put(v):
                    return dict(x, h=h[:k] + [dict(s, g=rest + [["c", c[1], v]])] + h[k + 1:])
                f = c[2][0]
                return [put(c[2][1:]), put([[f[0] + 1] + f[1:]] + c[2][1:]),
                        put([[f[0], f[1][1:], f[2], f[3] - 1]] + c[2][1:]),
                        put([f[:2] + [False, f[3]]] + c[2][1:]),
                        put([f[:3] + [f[3] + 1]] + c[2][1:]),
                        dict(x, h=h[:k] + [dict(s, g=rest)] + h[k + 1:]),
                        dict(x, h=h[:k] + [dict(s, q=[[1 - v for v in w] for w in s["q"]])]
                             + h[k + 1:])]
        return []
    conform(chk, "histories", "TraceLattice", TRACECFG, lines,
            lambda ls: spread([d + "/drv-latt"], ls), corrupt=corrupt, sample=False,
            counts=lambda rs: dict(operations=sum(x.count('"p"') for x in rs)))
    conform(chk, "large histories", "TraceLattice", TRACECFG,
            [large_latt(r) for _ in range(400 if THOROUGH else 64)],
            lambda ls: spread([d + "/drv-latt"], ls, 8), corrupt=corrupt, sample=False,
            counts=lambda rs: dict(operations=sum(x.count('"p"') for x in rs)))
    chk.finish()
