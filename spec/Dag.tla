-------------------------------- MODULE Dag --------------------------------
(***************************************************************************)
(* The graph container: a set of labelled edges <<from, to, label>> with   *)
(* set semantics, and several of them that are copied into one another.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

(* Effect of each operation on the sets of edges g (graph -> edges), and   *)
(* the result it returns: 1 or 0 for "has changed something", -1 for none. *)
Between(E, f, t) == {e \in E : e[1] = f /\ e[2] = t}

AddEdge(g, x, e)       == [g EXCEPT ![x] = @ \cup {e}]
AddResult(g, x, e)     == IF e \in g[x] THEN 0 ELSE 1
RemoveEdge(g, x, e)    == [g EXCEPT ![x] = @ \ {e}]
RemoveResult(g, x, e)  == IF e \in g[x] THEN 1 ELSE 0
RemoveDirect(g, x, f, t)       == [g EXCEPT ![x] = @ \ Between(@, f, t)]
RemoveDirectResult(g, x, f, t) == IF Between(g[x], f, t) # {} THEN 1 ELSE 0
Unite(g, x, y)         == [g EXCEPT ![x] = @ \cup g[y]]
Copy(g, x, y)          == [g EXCEPT ![x] = g[y]]
Move(g, x, y)          == [z \in DOMAIN g |-> IF z = x THEN g[y]
                                              ELSE IF z = y THEN {} ELSE g[z]]

(* A chain of syllables <<label, node it leads to>> *)
ChainEdges(pos, c) ==
  { <<IF i = 1 THEN pos ELSE c[i - 1][2], c[i][2], c[i][1]>> : i \in DOMAIN c }
AddChain(g, x, pos, c) == [g EXCEPT ![x] = @ \cup ChainEdges(pos, c)]

(* What can be seen of a graph *)
OutDegree(E, n) == Cardinality({e \in E : e[1] = n})
InDegree(E, n)  == Cardinality({e \in E : e[2] = n})
=============================================================================
