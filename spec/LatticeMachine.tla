--------------------------- MODULE LatticeMachine ---------------------------
(***************************************************************************)
(* Histories of groups, chains and lattices.  Checked: joining keeps what  *)
(* a chain stands for, leaves no neighbours to join, changes nothing more  *)
(* when repeated, and keeps the end; no operation touches other places.    *)
(***************************************************************************)
EXTENDS Lattice, TLC

CONSTANTS Strings, Ends, Places, MaxGroups, MaxChains, MaxOps

VARIABLES g, last

Start == [f |-> [k \in Places |-> NoGroup], c |-> [k \in Places |-> <<>>],
          t |-> [k \in Places |-> <<>>]]

Ops ==
  {<<k, "n", x>> : k \in {"f", "c", "t"}, x \in Places}
  \cup {<<k, op, x, y>> : k \in {"f", "c", "t"}, op \in {"y", "m", "="},
                          x \in Places, y \in Places}
  \cup {<<"f", "k", x, e, s>> : x \in Places, e \in Ends, s \in Strings}
  \cup {<<"f", "+", x, s>> : x \in Places, s \in Strings}
  \cup {<<"f", "u", x, y>> : x \in Places, y \in Places}
  \cup {<<"c", op, x, y>> : op \in {"k", "+", "u"}, x \in Places, y \in Places}
  \cup {<<"t", op, x, y>> : op \in {"k", "+"}, x \in Places, y \in Places}
  \cup {<<k, "j", x>> : k \in {"c", "t"}, x \in Places}

Small(h) == \A k \in Places :
  /\ Len(h.c[k]) <= MaxGroups
  /\ Len(h.t[k]) <= MaxChains
  /\ \A j \in DOMAIN h.c[k] : \A s \in h.c[k][j].s : Len(s) <= MaxGroups

Init == g = Start /\ last = <<>>
Next == \E o \in Ops :
  /\ o[2] = "m" => o[3] # o[4]
  /\ Small(After(g, o))
  /\ g' = After(g, o) /\ last' = o
Spec == Init /\ [][Next]_<<g, last>>

EndOf(c) == IF c = <<>> THEN -1 ELSE c[Len(c)].e
ChainOK(c) ==
  LET j == JoinChain(c)
  IN /\ Says(j) = Says(c)
     /\ \A k \in 1..(Len(j) - 1) : ~(Single(j[k]) /\ Single(j[k + 1]))
     /\ JoinChain(j) = j
     /\ EndOf(j) = EndOf(c)
Joining == \A k \in Places :
  /\ ChainOK(g.c[k])
  /\ \A j \in DOMAIN g.t[k] : ChainOK(g.t[k][j])
  /\ LatticeSays(JoinLattice(g.t[k])) = LatticeSays(g.t[k])

(* an operation leaves the other places alone *)
Local == [][
  \A k \in Places :
    /\ ~(last'[1] = "f" /\ (last'[3] = k \/ (last'[2] = "m" /\ last'[4] = k)))
         => g'.f[k] = g.f[k]
    /\ ~(last'[1] = "c" /\ (last'[3] = k \/ (last'[2] = "m" /\ last'[4] = k)))
         => g'.c[k] = g.c[k]
    /\ ~(last'[1] = "t" /\ (last'[3] = k \/ (last'[2] = "m" /\ last'[4] = k)))
         => g'.t[k] = g.t[k]]_<<g, last>>
Bounded == TLCGet("level") <= MaxOps
View == g
TheStrings == {<<<<"a", 1>>>>, <<<<"a", 2>>>>, <<<<"b", 1>>>>}
=============================================================================
