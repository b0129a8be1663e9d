------------------------------- MODULE Lattice ------------------------------
(***************************************************************************)
(* Groups of alternatives, chains of groups, and lattices.                 *)
(*                                                                         *)
(* A string is a sequence of syllables <<label, positions>>.  A group is a  *)
(* record [e, s]: the position where it ends and its set of strings.       *)
(* Strings with the same labels are one alternative, which may come with   *)
(* the positions of any of them; that is why a syllable has a set of       *)
(* positions.  A chain is a sequence of groups, a lattice a sequence of    *)
(* chains.  Groups, chains and lattices live in numbered places of a state *)
(* [f, c, t]; every operation changes one place (moving empties another).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoGroup == [e |-> -1, s |-> {}]

Labels(x) == [k \in DOMAIN x |-> x[k][1]]
Exactly(x) == [k \in DOMAIN x |-> <<x[k][1], {x[k][2]}>>]      \* of a given string
Either(x, y) == [k \in DOMAIN x |-> <<x[k][1], x[k][2] \cup y[k][2]>>]
Add(s, x) ==
  LET same == {y \in s : Labels(y) = Labels(x)}
  IN (s \ same) \cup {IF same = {} THEN x ELSE Either(x, CHOOSE y \in same : TRUE)}
AddAll(s, t) ==
  {x \in s : \A y \in t : Labels(y) # Labels(x)}
  \cup {x \in t : \A y \in s : Labels(y) # Labels(x)}
  \cup {Either(p[1], p[2]) : p \in {q \in s \X t : Labels(q[1]) = Labels(q[2])}}
Alternatives(s) == {Labels(x) : x \in s}

(* Neighbouring groups with one alternative each become one, which ends    *)
(* where the last of them ended                                            *)
Single(g) == Cardinality(g.s) = 1
The(g) == CHOOSE x \in g.s : TRUE
RECURSIVE JoinChain(_)
JoinChain(c) ==
  IF Len(c) < 2 THEN c
  ELSE IF Single(c[1]) /\ Single(c[2])
    THEN JoinChain(<<[e |-> c[2].e, s |-> {The(c[1]) \o The(c[2])}]>> \o SubSeq(c, 3, Len(c)))
    ELSE <<c[1]>> \o JoinChain(Tail(c))

JoinLattice(t) == [k \in DOMAIN t |-> JoinChain(t[k])]

(* What a chain and a lattice stand for *)
RECURSIVE Says(_)
Says(c) == IF c = <<>> THEN {<<>>}
           ELSE { a \o b : a \in Alternatives(Head(c).s), b \in Says(Tail(c)) }
LatticeSays(t) == UNION { Says(t[k]) : k \in DOMAIN t }

(* Operations o: <<kind of place, operation, place, argument...>>.         *)
(*   n new   k from one part   y copy   m move   = assign   + add a part   *)
(*   u add all of another   j join   S assign a string   e set the end     *)
Value(g, o) ==
  LET kind == o[1]  op == o[2]  x == o[3]
      at(k) == CASE kind = "f" -> g.f[k] [] kind = "c" -> g.c[k] [] kind = "t" -> g.t[k]
  IN CASE op = "n" -> IF kind = "f" THEN NoGroup ELSE <<>>
       [] op \in {"y", "m", "="} -> at(o[4])
       [] op = "j" -> IF kind = "c" THEN JoinChain(g.c[x]) ELSE JoinLattice(g.t[x])
       [] kind = "f" /\ op = "k" -> [e |-> o[4], s |-> {Exactly(o[5])}]
       [] kind = "f" /\ op = "S" -> [e |-> o[4], s |-> {Exactly(o[5])}]
       [] kind = "f" /\ op = "+" -> [g.f[x] EXCEPT !.s = Add(@, Exactly(o[4]))]
       [] kind = "f" /\ op = "u" -> [g.f[x] EXCEPT !.s = AddAll(@, g.f[o[4]].s)]
       [] kind = "f" /\ op = "e" -> [g.f[x] EXCEPT !.e = o[4]]
       [] kind = "c" /\ op = "k" -> <<g.f[o[4]]>>
       [] kind = "c" /\ op = "+" -> Append(g.c[x], g.f[o[4]])
       [] kind = "c" /\ op = "u" -> g.c[x] \o g.c[o[4]]
       [] kind = "t" /\ op = "k" -> <<g.c[o[4]]>>
       [] kind = "t" /\ op = "+" -> Append(g.t[x], g.c[o[4]])

Empty(kind) == IF kind = "f" THEN NoGroup ELSE <<>>

After(g, o) ==
  LET v == Value(g, o)
      put(h, k, w) == CASE o[1] = "f" -> [h EXCEPT !.f[k] = w]
                        [] o[1] = "c" -> [h EXCEPT !.c[k] = w]
                        [] o[1] = "t" -> [h EXCEPT !.t[k] = w]
  IN IF o[2] = "m" THEN put(put(g, o[4], Empty(o[1])), o[3], v) ELSE put(g, o[3], v)
=============================================================================
