---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Validation of recorded histories against History.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ref == ndJsonDeserialize(IOEnv.REF)[1]

Key(t, m, f) == ToString(t) \o m \o ToString(f)
TheGoodFiles == {Ref.good[k] : k \in DOMAIN Ref.good}
TheGraph(t, m, f) == Ref.g[Key(t, m, f)]
TheOut(t, m, f, o) == Ref.o[Key(t, m, f) \o o]
H == INSTANCE History WITH GoodFiles <- TheGoodFiles, RefGraph <- TheGraph,
                           RefOut <- TheOut

RECURSIVE Follow(_, _, _)
Follow(h, k, s) ==
  IF k > Len(h) THEN "ok"
  ELSE LET v == H!Judge(s, h[k])
       IN IF v # "ok" THEN "event " \o ToString(k) \o ": " \o v
          ELSE Follow(h, k + 1, H!After(s, h[k]))

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x ELSE Follow(r.h, 1, H!Start)

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
