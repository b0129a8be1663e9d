---------------------------- MODULE TraceLattice ----------------------------
(***************************************************************************)
(* Validation of recorded histories of groups, chains and lattices.  A     *)
(* step has the operation p, what changed (g: place and what it looks like *)
(* now), and which groups are equal (q).  A group looks like               *)
(* <<end, strings in order, whether they ascend, their number>>, chains    *)
(* and lattices like sequences of these, a lattice with its number.        *)
(***************************************************************************)
EXTENDS Lattice, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Places == 1..3
Range(q) == {q[k] : k \in DOMAIN q}

Fits(x, y) == /\ Labels(x) = Labels(y)
              /\ \A k \in DOMAIN x : x[k][2] \in y[k][2]
GroupIs(o, v) == /\ o[1] = v.e
                 /\ Len(o[2]) = Cardinality(v.s)
                 /\ Alternatives(Range(o[2])) = Alternatives(v.s)
                 /\ \A x \in Range(o[2]) : \E y \in v.s : Fits(x, y)
                 /\ o[3]
                 /\ o[4] = Cardinality(v.s)
ChainIs(o, v) == /\ Len(o) = Len(v)
                 /\ \A k \in DOMAIN v : GroupIs(o[k], v[k])
LatticeIs(o, v) == /\ o[2] = Len(v)
                   /\ Len(o[1]) = Len(v)
                   /\ \A k \in DOMAIN v : ChainIs(o[1][k], v[k])

(* what can be told apart without positions *)
Group(v) == [e |-> v.e, s |-> Alternatives(v.s)]
Chain(v) == [k \in DOMAIN v |-> Group(v[k])]
Latt(v) == [k \in DOMAIN v |-> Chain(v[k])]

Is(g, x) == CASE x[1] = "f" -> GroupIs(x[3], g.f[x[2]])
              [] x[1] = "c" -> ChainIs(x[3], g.c[x[2]])
              [] x[1] = "t" -> LatticeIs(x[3], g.t[x[2]])

Start == [f |-> [k \in Places |-> NoGroup], c |-> [k \in Places |-> <<>>],
          t |-> [k \in Places |-> <<>>]]

RECURSIVE Follow(_, _, _)
Follow(h, k, g) ==
  IF k > Len(h) THEN "ok"
  ELSE LET s == h[k]
           g2 == After(g, s.p)
           seen(kind) == {x[2] : x \in {y \in Range(s.g) : y[1] = kind}}
           badly == {x \in Range(s.g) : ~Is(g2, x)}
           at == "step " \o ToString(k) \o " " \o s.p[1] \o s.p[2] \o ": "
       IN CASE badly # {} -> LET x == CHOOSE y \in badly : TRUE
                             IN at \o x[1] \o ToString(x[2]) \o " is " \o ToString(x[3])
            [] \/ \E x \in Places \ seen("f") : Group(g2.f[x]) # Group(g.f[x])
               \/ \E x \in Places \ seen("c") : Chain(g2.c[x]) # Chain(g.c[x])
               \/ \E x \in Places \ seen("t") : Latt(g2.t[x]) # Latt(g.t[x]) -> at \o "no effect"
            [] \E x, y \in Places : (s.q[x][y] = 1) # (Alternatives(g2.f[x].s) = Alternatives(g2.f[y].s))
                 -> at \o "equality"
            [] OTHER -> Follow(h, k + 1, g2)

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x ELSE Follow(r.h, 1, Start)

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
