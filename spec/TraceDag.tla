------------------------------ MODULE TraceDag ------------------------------
(***************************************************************************)
(* Validation of recorded histories of operations on graph containers.     *)
(***************************************************************************)
EXTENDS Dag, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Range(q) == {q[k] : k \in DOMAIN q}
IsSetOf(q, S) == Len(q) = Cardinality(S) /\ Range(q) = S

After(g, p) ==
  CASE p[1] = "a" -> AddEdge(g, p[2], <<p[3], p[4], p[5]>>)
    [] p[1] = "r" -> RemoveEdge(g, p[2], <<p[3], p[4], p[5]>>)
    [] p[1] = "d" -> RemoveDirect(g, p[2], p[3], p[4])
    [] p[1] = "u" -> Unite(g, p[2], p[3])
    [] p[1] = "=" \/ p[1] = "c" -> Copy(g, p[2], p[3])
    [] p[1] = "m" -> Move(g, p[2], p[3])
    [] p[1] = "s" -> AddChain(g, p[2], p[3], SubSeq(p, 4, Len(p)))

Result(g, p) ==
  CASE p[1] = "a" -> AddResult(g, p[2], <<p[3], p[4], p[5]>>)
    [] p[1] = "r" -> RemoveResult(g, p[2], <<p[3], p[4], p[5]>>)
    [] p[1] = "d" -> RemoveDirectResult(g, p[2], p[3], p[4])
    [] OTHER -> -1

Seen(E, o) ==
  LET outs == {e[1] : e \in E}
      ins == {e[2] : e \in E}
  IN CASE ~IsSetOf(o.o, E) -> "edges"
       [] ~IsSetOf(o.i, E) -> "edges by target"
       [] ~IsSetOf(o.oe, E) -> "edges from node"
       [] ~IsSetOf(o.ie, E) -> "edges to node"
       [] ~IsSetOf(o.od, {<<n, OutDegree(E, n)>> : n \in outs}) -> "out degree"
       [] ~IsSetOf(o.id, {<<n, InDegree(E, n)>> : n \in ins}) -> "in degree"
       [] ~IsSetOf(o.ex, E) -> "membership"
       [] OTHER -> "ok"

Graphs == {0, 1, 2}

(* Fold over the history *)
RECURSIVE Follow(_, _, _)
Follow(h, k, g) ==
  IF k > Len(h) THEN "ok"
  ELSE LET s == h[k]
           g2 == After(g, s.p)
           seen == {x[1] : x \in Range(s.g)}
           badly == {x \in Range(s.g) : Seen(g2[x[1]], x[2]) # "ok"}
           at == "step " \o ToString(k) \o " " \o s.p[1] \o ": "
       IN CASE s.r # Result(g, s.p) -> at \o "result"
            [] badly # {} -> LET x == CHOOSE y \in badly : TRUE
                             IN at \o Seen(g2[x[1]], x[2])
            [] \E x \in Graphs \ seen : g2[x] # g[x] -> at \o "no effect"
            [] OTHER -> Follow(h, k + 1, g2)

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x
              ELSE Follow(r.h, 1, [x \in Graphs |-> {}])

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
