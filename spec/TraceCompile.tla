---------------------------- MODULE TraceCompile ----------------------------
(***************************************************************************)
(* Validation of recorded runs of the dictionary compiler into one file.   *)
(* A run has the number l of a list, the fault f ("none", "call": wrong    *)
(* number of arguments, or another one), whether the fault must have been  *)
(* met (hit), the status st, and whether the file can be loaded then (ld)  *)
(* and what is found in the probe texts (m).                               *)
(*                                                                         *)
(* The state is the list whose dictionary the file holds (0: none).  The   *)
(* steps allowed are those of Compile between a start and the next one.    *)
(***************************************************************************)
EXTENDS WordList, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ListsRaw == ndJsonDeserialize(IOEnv.LISTS)
Probes == ndJsonDeserialize(IOEnv.PROBES)

Known == [l \in DOMAIN ListsRaw |-> Listed(ListsRaw[l].b)]
Good == {l \in DOMAIN ListsRaw : ~Malformed(Known[l]) /\ ~Odd(Known[l])}
Holds == [l \in Good \cup {0} |-> IF l = 0 THEN {} ELSE Content(Known[l])]
Want == [l \in Good \cup {0} |-> [q \in DOMAIN Probes |-> AllMatches(Holds[l], Probes[q].t)]]

RangeOf(s) == {s[k] : k \in DOMAIN s}
Shows(s, l) == /\ s.ld = (l # 0)
               /\ \A q \in DOMAIN Probes :
                    Len(s.m[q]) = Cardinality(Want[l][q]) /\ RangeOf(s.m[q]) = Want[l][q]

(* lists the file may hold after a run *)
After(s, cur) ==
  CASE s.st = 0       -> {s.l} \cap Good
    [] s.f = "call"   -> {cur}
    [] OTHER          -> {0, cur, s.l} \cap (Good \cup {0})

RECURSIVE Follow(_, _, _)
Follow(h, k, cur) ==
  IF k > Len(h) THEN "ok"
  ELSE LET s == h[k]
           at == "run " \o ToString(k) \o " (" \o s.f \o "): "
           now == {l \in After(s, cur) : Shows(s, l)}
           fails == s.hit \/ s.l \notin Good
       IN CASE s.st = 0 /\ fails  -> at \o "success reported"
            [] s.st # 0 /\ ~fails /\ s.f # "kill" -> at \o "failure reported"
            [] now = {} -> at \o "what the file holds"
            [] OTHER -> Follow(h, k + 1, CHOOSE l \in now : TRUE)

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x ELSE Follow(r.h, 1, 0)

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
