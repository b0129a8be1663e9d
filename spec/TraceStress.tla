----------------------------- MODULE TraceStress ----------------------------
(***************************************************************************)
(* Validation of recorded efforts.  A record is either one text (kind "t": *)
(* length u, edges e and nodes c of its graph, pronunciations p, bytes o   *)
(* written for them), or a series of texts of the same pattern, each twice *)
(* as long as the one before (kind "s": points [u, e, c, ms]).             *)
(*                                                                         *)
(* Model checking of Pool shows that a reader needs at most two steps per  *)
(* position, each adding at most the pieces that begin there, whose number *)
(* is bounded.  So the graph grows linearly; the bound leaves room.  Time  *)
(* may grow with the fifth power: doubling the length costs a factor of 32 *)
(* at most, above what can be measured at all.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

PerPosition == 200
Floor == 100            \* ms
MaxMs == 60000

Small(u, e, c) == e <= PerPosition * (u + 1) /\ c <= PerPosition * (u + 1)
Max(a, b) == IF a > b THEN a ELSE b
Grows(p, q) == q[4] <= MaxMs /\ q[4] <= 32 * Max(p[4], Floor)

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed " \o r.x
  ELSE IF r.k = "t" THEN
    CASE ~Small(r.u, r.e, r.c) -> "graph too large"
      [] r.v /\ r.u > 0 /\ r.p > 0 /\ r.e > 0 /\ r.p <= r.lim /\ r.o = 0 -> "nothing written"
      [] OTHER -> "ok"
  ELSE
    CASE \E j \in DOMAIN r.pts : ~Small(r.pts[j][1], r.pts[j][2], r.pts[j][3])
           -> "graph too large"
      [] \E j \in 2..Len(r.pts) : ~Grows(r.pts[j - 1], r.pts[j]) -> "takes too long"
      [] OTHER -> "ok"

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
