------------------------------ MODULE TraceLoad -----------------------------
(***************************************************************************)
(* Validation of recorded load histories.  A step of a history has the     *)
(* kind w (load, make: both are made anew from the file, close, none), the *)
(* number f of a file, the results d and p of loading it as a dictionary   *)
(* and into the reader, and what both find in the probe texts.             *)
(*                                                                         *)
(* FILES describes the files: ok (all there), its words and readings.      *)
(***************************************************************************)
EXTENDS Parser, WordList, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
FilesRaw == ndJsonDeserialize(IOEnv.FILES)
Probes == ndJsonDeserialize(IOEnv.PROBES)

RangeOf(s) == {s[k] : k \in DOMAIN s}
EntriesOf(f) == IF f = 0 THEN {} ELSE RangeOf(FilesRaw[f].ent)
Full == {f \in DOMAIN FilesRaw : FilesRaw[f].ok}

(* what each complete file (0: none) makes of each probe, worked out once *)
ByFirst(f) ==
  LET es == { [k |-> x.k, r |-> RangeOf(x.r)] : x \in EntriesOf(f) }
  IN [c \in {x.k[1] : x \in es} |-> {x \in es : x.k[1] = c}]
WantM == [f \in Full \cup {0} |-> [q \in DOMAIN Probes |->
           AllMatches({<<x.k, x.d>> : x \in EntriesOf(f)}, Probes[q].t)]]
WantE == [f \in Full \cup {0} |-> [q \in DOMAIN Probes |->
           ReadText(Probes[q].t, {}, ByFirst(f))]]

AgreeM(m, want) == Len(m) = Cardinality(want) /\ RangeOf(m) = want
AgreeE(e, want) == RangeOf(e) = want

RECURSIVE Follow(_, _, _, _)
Follow(h, k, cd, cp) ==         \* files of the dictionary and of the reader
  IF k > Len(h) THEN "ok"
  ELSE LET s == h[k]
           new == IF s.f \in Full THEN s.f ELSE 0
           nd == CASE s.w = "none" -> cd [] s.w = "close" -> 0 [] OTHER -> new
           np == IF s.w \in {"none", "close"} THEN cp ELSE new
           ret == IF s.w # "load" THEN -1 ELSE IF s.f \in Full THEN 1 ELSE 0
           at == "step " \o ToString(k) \o ": "
       IN CASE s.d # ret -> at \o "result of loading"
            [] s.p # ret -> at \o "result of loading into the reader"
            [] \E q \in DOMAIN Probes : ~AgreeM(s.m[q], WantM[nd][q]) -> at \o "matches"
            [] \E q \in DOMAIN Probes : ~AgreeE(s.e[q], WantE[np][q]) -> at \o "readings"
            [] OTHER -> Follow(h, k + 1, nd, np)

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x ELSE Follow(r.h, 1, 0, 0)

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
