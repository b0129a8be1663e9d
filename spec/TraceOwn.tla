------------------------------ MODULE TraceOwn ------------------------------
(***************************************************************************)
(* Validation of recorded rounds.  A record has the events p that come     *)
(* first and the events b of a round, an event being its letter, a reader  *)
(* or dictionary and a file (0: none); the results ok of the loads, and    *)
(* what was held, h: blocks of memory, files and bytes of memory, at first *)
(* and after each round.  FILES names the files that are complete.         *)
(*                                                                         *)
(* A round leaves every reader and dictionary as the round before left it, *)
(* so nothing more may be held after it, once things kept for later use    *)
(* are there.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Good == {x.f : x \in {ndJsonDeserialize(IOEnv.FILES)[k] :
                      k \in DOMAIN ndJsonDeserialize(IOEnv.FILES)}}

Slots == {"reader", "dict"} \X (1..3)
Slot(e) == <<IF e[1] \in {"n", "m", "l", "r", "x"} THEN "reader" ELSE "dict", e[2]>>
Content(f) == IF f \in Good THEN f ELSE 0

(* gone: -1; without dictionary: 0 *)
After(s, e) ==
  LET k == Slot(e)
  IN CASE e[1] \in {"n", "N"} -> [s EXCEPT ![k] = 0]
       [] e[1] \in {"m", "M", "l", "L"} -> [s EXCEPT ![k] = Content(e[3])]
       [] e[1] = "C" -> [s EXCEPT ![k] = 0]
       [] e[1] \in {"x", "X"} -> [s EXCEPT ![k] = -1]
       [] OTHER -> s

RECURSIVE AllAfter(_, _, _)
AllAfter(s, es, k) == IF k > Len(es) THEN s ELSE AllAfter(After(s, es[k]), es, k + 1)

Loads(es) == SelectSeq(es, LAMBDA e : e[1] \in {"l", "L"})

(* blocks of one size need not take equally many bytes *)
Slack(r) == 300 + r.h[1][1] \div 4

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed " \o r.x
  ELSE
  LET s0 == AllAfter([k \in Slots |-> -1], r.p, 1)
      s1 == AllAfter(s0, r.b, 1)
      loads == Loads(r.p) \o Loads(r.b)
      n == Len(r.h)
      m == (n + 1) \div 2
  IN CASE n < 7 -> "too few rounds"
       [] AllAfter(s1, r.b, 1) # s1 -> "no round"
       [] Len(r.ok) # Len(loads) -> "results"
       [] \E k \in DOMAIN loads : (r.ok[k] = 1) # (loads[k][3] \in Good) -> "result of loading"
       [] r.h[n][2] > r.h[m][2] -> "files held"
       [] r.h[n][1] - r.h[m][1] >= n - m -> "memory held"
       [] r.h[n][3] - r.h[m][3] >= Slack(r) -> "bytes held"
       [] OTHER -> "ok"

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
