------------------------------ MODULE TraceList -----------------------------
(***************************************************************************)
(* Validation of compiled word lists: a record has the bytes b of a list   *)
(* file, the status st of the compiler, whether the result can be loaded   *)
(* (ld), and the matches found in query texts (q).                         *)
(***************************************************************************)
EXTENDS WordList, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed " \o r.x
  ELSE LET es == Listed(r.b)
           c == Content(es)
           wrong == {k \in DOMAIN r.q : ~Finds(c, r.q[k].t, r.q[k].m)}
       IN IF Malformed(es)
            THEN CASE r.st = 0 -> "malformed list accepted"
                   [] r.ld -> "usable dictionary from malformed list"
                   [] OTHER -> "ok"
          ELSE IF r.st # 0
            THEN CASE ~Odd(es) -> "list refused"
                   [] r.ld -> "usable dictionary in spite of failure"
                   [] OTHER -> "ok"
          ELSE CASE ~r.ld -> "dictionary cannot be loaded"
                 [] wrong # {} -> LET k == CHOOSE x \in wrong : TRUE
                                  IN "matches in query " \o ToString(k) \o ": "
                                     \o ToString(r.q[k].m)
                 [] OTHER -> "ok"

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
