----------------------------- MODULE TraceOrder -----------------------------
(***************************************************************************)
(* Validation of recorded comparisons.  A record holds a universe of       *)
(* syllables a (content and end), strings s over it, the results of the    *)
(* six comparison operators on all pairs (m on syllables, n on strings) as *)
(* sums of 1 (equal) 2 (not equal) 4 (less) 8 (greater) 16 (less or equal) *)
(* 32 (greater or equal), and the contents f and h of collections after    *)
(* insertion sequences q.                                                  *)
(*                                                                         *)
(* The specification does not say which syllable is less; it says what an  *)
(* order is.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(x, b) == (x \div b) % 2 = 1
EQ == 1   NE == 2   LT == 4   GT == 8   LE == 16   GE == 32
IsLit(c) == SubSeq(c, 1, 1) = "L"

(* Equality is sameness of content; less is a strict total order on        *)
(* content with ends; all operators agree.  same(i,j), equal(i,j) say      *)
(* whether two items are the same with or without ends.                    *)
OrderOK(m, same(_, _), equal(_, _)) ==
  LET D == DOMAIN m
      lt(i, j) == Has(m[i][j], LT)
  IN CASE \E i, j \in D : Has(m[i][j], EQ) # equal(i, j) -> "equality"
       [] \E i, j \in D : Has(m[i][j], NE) = Has(m[i][j], EQ) -> "inequality"
       [] \E i, j \in D : Has(m[i][j], GT) # lt(j, i) -> "greater"
       [] \E i, j \in D : lt(i, j) /\ lt(j, i) -> "not antisymmetric"
       [] \E i, j \in D : same(i, j) /\ lt(i, j) -> "less than itself"
       [] \E i, j \in D : ~same(i, j) /\ ~lt(i, j) /\ ~lt(j, i) -> "not total"
       [] \E i, j \in D : Has(m[i][j], LE) # (lt(i, j) \/ same(i, j)) -> "less or equal"
       [] \E i, j \in D : Has(m[i][j], GE) # (lt(j, i) \/ same(i, j)) -> "greater or equal"
       [] \E i, j, k \in D : lt(i, j) /\ lt(j, k) /\ ~lt(i, k) -> "not transitive"
       [] OTHER -> "ok"

Range(q) == {q[i] : i \in DOMAIN q}
Contents(s) == [i \in DOMAIN s |-> s[i][1]]

LexLess(x, y, less(_, _)) ==
  \E p \in 1..Len(y) :
    /\ \A q \in 1..(p - 1) : q <= Len(x) /\ ~less(x[q], y[q]) /\ ~less(y[q], x[q])
    /\ p = Len(x) + 1 \/ (p <= Len(x) /\ less(x[p], y[p]))

(* f: what the collection holds after inserting strings in; less: order    *)
CollectionOK(f, in, less(_, _)) ==
  /\ Range(f) \subseteq in
  /\ {Contents(s) : s \in Range(f)} = {Contents(s) : s \in in}
  /\ \A i, j \in DOMAIN f : i # j => Contents(f[i]) # Contents(f[j])
  /\ \A i \in DOMAIN f : i < Len(f) => less(f[i], f[i + 1])

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed " \o r.x
  ELSE
  LET a == r.a
      str == [i \in DOMAIN r.s |-> [p \in DOMAIN r.s[i] |-> a[r.s[i][p]]]]
      sylSame(i, j) == a[i] = a[j]
      sylEqual(i, j) == a[i][1] = a[j][1]
      strSame(i, j) == str[i] = str[j]
      strEqual(i, j) == Contents(str[i]) = Contents(str[j])
      v1 == OrderOK(r.m, sylSame, sylEqual)
      v2 == OrderOK(r.n, strSame, strEqual)
      sylLess(i, j) == Has(r.m[i][j], LT)
      strLess(x, y) == \E i, j \in DOMAIN str : str[i] = x /\ str[j] = y
                                                 /\ Has(r.n[i][j], LT)
      ins(k) == {str[x] : x \in Range(r.q[k])}
  IN CASE v1 # "ok" -> "syllables: " \o v1
       [] \E i, j \in DOMAIN a : IsLit(a[i][1]) /\ ~IsLit(a[j][1]) /\ ~sylLess(i, j)
            -> "literal not before syllable"
       [] v2 # "ok" -> "strings: " \o v2
       [] \E i, j \in DOMAIN str :
            Has(r.n[i][j], LT) # LexLess(r.s[i], r.s[j], sylLess)
            -> "not lexicographic"
       [] \E k \in DOMAIN r.q : ~CollectionOK(r.f[k], ins(k), strLess)
            -> "collection"
       [] \E k \in DOMAIN r.q : ~CollectionOK(r.h[k], ins(k), strLess)
            -> "united collection"
       [] \E k, l \in DOMAIN r.q :
            /\ ins(k) = ins(l)
            /\ Cardinality({[i \in DOMAIN x |-> Contents(x[i])]
                            : x \in {r.f[k], r.f[l], r.h[k], r.h[l]}}) # 1
            -> "depends on order of insertion"
       [] OTHER -> "ok"

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
