----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Validation of the shape of recorded pronunciation graphs, whatever the  *)
(* readings are.                                                           *)
(*                                                                         *)
(* A record has the length n of the text, and the edges                    *)
(* <<from, to, label, end>> as seen from their origins (o) and from their  *)
(* targets (i), or the way in which reading the text failed (x).  Nodes    *)
(* 0..n are positions in the text; other nodes are inner nodes, between a  *)
(* half syllable and the syllable it belongs to.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

RangeOf(s) == {s[k] : k \in DOMAIN s}
Pos(r) == 0..r.n
Inner(r, x) == x \notin Pos(r)

RECURSIVE Grow(_, _, _)
Grow(E, S, fwd) ==
  LET T == S \cup {IF fwd THEN e[2] ELSE e[1]
                   : e \in {e \in E : (IF fwd THEN e[1] ELSE e[2]) \in S}}
  IN IF T = S THEN S ELSE Grow(E, T, fwd)

(* Every piece leads on in the text; an inner node leads from one position *)
(* to later ones                                                           *)
Forward(r, E) ==
  /\ \A e \in E :
       /\ ~Inner(r, e[1]) /\ ~Inner(r, e[2]) => e[1] < e[2]
       /\ ~(Inner(r, e[1]) /\ Inner(r, e[2]) /\ e[1] = e[2])
  /\ \A e, f \in E :
       e[2] = f[1] /\ Inner(r, e[2]) /\ ~Inner(r, e[1]) /\ ~Inner(r, f[2])
         => e[1] < f[2]

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed"
  ELSE
  LET E == RangeOf(r.o)
      N == {e[1] : e \in E} \cup {e[2] : e \in E}
  IN CASE Cardinality(E) # Len(r.o) \/ Len(r.i) # Len(r.o) -> "duplicate"
       [] RangeOf(r.i) # E -> "views differ"
       [] \E e \in E : e[4] # e[2] -> "end of piece differs from its target"
       [] ~Forward(r, E) -> "not forward"
       [] ~(N \subseteq Grow(E, {0}, TRUE)) -> "not reached from the beginning"
       [] ~(N \subseteq Grow(E, {r.n}, FALSE)) -> "leads nowhere"
       [] OTHER -> "ok"

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
