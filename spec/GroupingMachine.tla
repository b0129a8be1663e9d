-------------------------- MODULE GroupingMachine ---------------------------
(***************************************************************************)
(* Grouping step by step in any order, from every small graph.  TLC shows  *)
(* that each step keeps the pronunciations, that the result does not       *)
(* depend on the order, and that the chains stand for the pronunciations.  *)
(***************************************************************************)
EXTENDS Grouping

CONSTANTS N,            \* nodes 0..N
          Labels

VARIABLES g0, g         \* the graph and what it has become

Pairs == {p \in (0..N) \X (0..N) : p[1] < p[2]}
AllEdges == { <<p[1], p[2], <<l>>>> : p \in Pairs, l \in Labels }

(* all nodes can be reached from node 0 *)
Rooted(E) == \A e \in E : e[1] = 0 \/ In(E, e[1]) # {}

Init == g0 \in {E \in SUBSET AllEdges : Rooted(E)} /\ g = g0
Next == /\ \E n \in Middle(g) : g' = Join(g, n)
        /\ g0' = g0
Spec == Init /\ [][Next]_<<g0, g>> /\ WF_<<g0, g>>(Next)

SameDenotation == Denotes(g) = Denotes(g0)
Confluent == Middle(g) = {} => g = JoinRuns(g0)
Done == <>(Middle(g) = {})

(* judged on the initial states only, which have all graphs *)
ChainsDenote ==
  g = g0 => UNION {Expand(c) : c \in Chains(g0)} = Denotes(g0)
Maximal ==
  g = g0 =>
    \A c \in Chains(g0) :
      /\ \A k \in DOMAIN c : c[k] # {}
      /\ \A k \in 1..(Len(c) - 1) : Cardinality(c[k]) > 1 \/ Cardinality(c[k + 1]) > 1
=============================================================================
