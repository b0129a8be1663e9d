------------------------------ MODULE Grouping ------------------------------
(***************************************************************************)
(* Pronunciations of a graph, and their grouping.                          *)
(*                                                                         *)
(* A graph is a set of edges <<from, to, string>>, a string being a        *)
(* sequence of syllables.  Its pronunciations are the strings along the    *)
(* paths from node 0 to a node without outgoing edge.  Grouping joins runs *)
(* without branches, then puts parallel edges together.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Out(E, n) == {e \in E : e[1] = n}
In(E, n)  == {e \in E : e[2] = n}

(* ---------------------------- denotation ------------------------------- *)
(* paths as sequences of edges *)
RECURSIVE PathsFrom(_, _)
PathsFrom(E, n) ==
  LET o == Out(E, n)
  IN IF o = {} THEN {<<>>}
     ELSE UNION { { <<e>> \o p : p \in PathsFrom(E, e[2]) } : e \in o }
Paths(E) == IF Out(E, 0) = {} THEN {} ELSE PathsFrom(E, 0)

RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
StringOf(p) == Flatten([k \in DOMAIN p |-> p[k][3]])
Denotes(E) == {StringOf(p) : p \in Paths(E)}

(* ---------------------------- unbranched runs -------------------------- *)
(* nodes in the middle of an unbranched run *)
Middle(E) == {n \in {e[1] : e \in E} :
                Cardinality(Out(E, n)) = 1 /\ Cardinality(In(E, n)) = 1}

Join(E, n) ==
  LET a == CHOOSE e \in In(E, n) : TRUE
      b == CHOOSE e \in Out(E, n) : TRUE
  IN (E \ {a, b}) \cup {<<a[1], b[2], a[3] \o b[3]>>}

RECURSIVE JoinRuns(_)
JoinRuns(E) == IF Middle(E) = {} THEN E
               ELSE JoinRuns(Join(E, CHOOSE n \in Middle(E) : TRUE))

(* --------------------------- parallel edges ---------------------------- *)
(* groups: edges <<from, to, set of strings>> *)
Parallel(E) ==
  { <<ft[1], ft[2], {e[3] : e \in {x \in E : x[1] = ft[1] /\ x[2] = ft[2]}}>>
    : ft \in {<<e[1], e[2]>> : e \in E} }

(* ------------------------------- chains -------------------------------- *)
(* Groups with one string each that follow one another are one group *)
RECURSIVE JoinSingles(_)
JoinSingles(c) ==
  IF Len(c) < 2 THEN c
  ELSE IF Cardinality(c[1]) = 1 /\ Cardinality(c[2]) = 1
    THEN LET a == CHOOSE s \in c[1] : TRUE
             b == CHOOSE s \in c[2] : TRUE
         IN JoinSingles(<<{a \o b}>> \o SubSeq(c, 3, Len(c)))
    ELSE <<c[1]>> \o JoinSingles(Tail(c))

ChainOf(p) == JoinSingles([k \in DOMAIN p |-> p[k][3]])

(* chains of a grouped graph, by the path they belong to *)
GroupPaths(E) == Paths(Parallel(JoinRuns(E)))
Chains(E) == {ChainOf(p) : p \in GroupPaths(E)}

(* strings a chain stands for *)
RECURSIVE Expand(_)
Expand(c) == IF c = <<>> THEN {<<>>}
             ELSE { a \o b : a \in Head(c), b \in Expand(Tail(c)) }
=============================================================================
