------------------------------ MODULE DagViews ------------------------------
(***************************************************************************)
(* The graph container as it is built: two bags of edges, one found by     *)
(* origin and one by target, kept in step.  TLC shows that they stay two   *)
(* views of one set, and that each step is a step of the sets of Dag.      *)
(***************************************************************************)
EXTENDS Dag, TLC

CONSTANTS Graphs, Nodes, Labels

VARIABLES from, to,     \* graph -> edge -> how often it is in the view
          res,          \* result of the last operation
          op            \* the last operation

vars == <<from, to, res, op>>
Edges == Nodes \X Nodes \X Labels
None == [e \in Edges |-> 0]

Init == /\ from = [x \in Graphs |-> None] /\ to = [x \in Graphs |-> None]
        /\ res = -1 /\ op = <<"new">>

(* one edge at a time, as united graphs are *)
PutAll(b, S) == [e \in Edges |-> IF e \in S /\ b[e] = 0 THEN 1 ELSE b[e]]
Dec(b, e) == [b EXCEPT ![e] = IF @ > 0 THEN @ - 1 ELSE 0]
ZeroDirect(b, f, t) == [e \in Edges |-> IF e[1] = f /\ e[2] = t THEN 0 ELSE b[e]]
InBag(b) == {e \in Edges : b[e] > 0}

(* membership is looked up in the view by origin, both views get the edge *)
Put(x, e) ==
  IF from[x][e] > 0 THEN UNCHANGED <<from, to>> /\ res' = 0
  ELSE /\ from' = [from EXCEPT ![x][e] = @ + 1]
       /\ to' = [to EXCEPT ![x][e] = @ + 1]
       /\ res' = 1

Take(x, e) ==
  /\ from' = [from EXCEPT ![x] = Dec(@, e)]
  /\ to' = [to EXCEPT ![x] = Dec(@, e)]
  /\ res' = IF from[x][e] > 0 \/ to[x][e] > 0 THEN 1 ELSE 0

TakeDirect(x, f, t) ==
  /\ from' = [from EXCEPT ![x] = ZeroDirect(@, f, t)]
  /\ to' = [to EXCEPT ![x] = ZeroDirect(@, f, t)]
  /\ res' = IF \E l \in Labels : from[x][<<f, t, l>>] > 0 \/ to[x][<<f, t, l>>] > 0
              THEN 1 ELSE 0

(* the edges the view by origin does not have go into both views *)
Merge(x, y) ==
  LET new == {e \in Edges : from[y][e] > 0 /\ from[x][e] = 0}
  IN /\ from' = [from EXCEPT ![x] = [e \in Edges |-> IF e \in new THEN @[e] + 1 ELSE @[e]]]
     /\ to' = [to EXCEPT ![x] = [e \in Edges |-> IF e \in new THEN @[e] + 1 ELSE @[e]]]
     /\ res' = -1

Assign(x, y) == /\ from' = [from EXCEPT ![x] = from[y]]
                /\ to' = [to EXCEPT ![x] = to[y]]
                /\ res' = -1

Steal(x, y) == /\ x # y
               /\ from' = [from EXCEPT ![x] = from[y], ![y] = None]
               /\ to' = [to EXCEPT ![x] = to[y], ![y] = None]
               /\ res' = -1

Next ==
  \E x \in Graphs :
    \/ \E e \in Edges : Put(x, e) /\ op' = <<"add", x, e>>
    \/ \E e \in Edges : Take(x, e) /\ op' = <<"rem", x, e>>
    \/ \E f \in Nodes, t \in Nodes : TakeDirect(x, f, t) /\ op' = <<"dir", x, f, t>>
    \/ \E y \in Graphs : Merge(x, y) /\ op' = <<"uni", x, y>>
    \/ \E y \in Graphs : Assign(x, y) /\ op' = <<"asg", x, y>>
    \/ \E y \in Graphs : Steal(x, y) /\ op' = <<"mov", x, y>>

Spec == Init /\ [][Next]_vars

(* ---------------------------- properties ------------------------------- *)
g == [x \in Graphs |-> InBag(from[x])]

ViewsAgree == from = to
NoDuplicates == \A x \in Graphs, e \in Edges : from[x][e] \in {0, 1}

Refines ==
  LET o == op'
      x == o[2]
  IN CASE o[1] = "add" -> g' = AddEdge(g, x, o[3]) /\ res' = AddResult(g, x, o[3])
       [] o[1] = "rem" -> g' = RemoveEdge(g, x, o[3]) /\ res' = RemoveResult(g, x, o[3])
       [] o[1] = "dir" -> g' = RemoveDirect(g, x, o[3], o[4])
                          /\ res' = RemoveDirectResult(g, x, o[3], o[4])
       [] o[1] = "uni" -> g' = Unite(g, x, o[3])
       [] o[1] = "asg" -> g' = Copy(g, x, o[3])
       [] o[1] = "mov" -> g' = Move(g, x, o[3])
Refinement == [][Refines]_vars

View == <<from, to>>
=============================================================================
