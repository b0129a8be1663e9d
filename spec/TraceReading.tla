---------------------------- MODULE TraceReading ----------------------------
(***************************************************************************)
(* Validation of recorded readings against the specification.              *)
(*                                                                         *)
(* The trace is a sequence of records                                      *)
(*   w : the text (code units)                                             *)
(*   b : the word breaks in force                                          *)
(*   e : the edges of the pronunciation graph that was produced            *)
(*   x : (instead of e) how reading the text failed                        *)
(* Each step consumes one record.  A record that the specification does    *)
(* not allow is reported and the rest of the trace is still consumed.      *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils

CONSTANTS Aspect          \* which aspect of the readings is compared

Trace == ndJsonDeserialize(IOEnv.TRACE)
DictRaw == ndJsonDeserialize(IOEnv.DICT)

RangeOf(s) == {s[i] : i \in DOMAIN s}

ByFirst ==
  LET entries == { [k |-> x.k, r |-> RangeOf(x.r)] : x \in RangeOf(DictRaw) }
  IN [c \in {x.k[1] : x \in entries} |-> {x \in entries : x.k[1] = c}]

Seg(edges) == {<<e[1], e[2], e[3]>> : e \in edges}

(* "ok", or what is wrong with the record *)
Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed"
  ELSE LET got == RangeOf(r.e)
           want == ReadText(r.w, RangeOf(r.b), ByFirst)
       IN IF got = want THEN "ok"
          ELSE LET sg == Seg(got) sw == Seg(want) IN
          CASE Aspect = "seg" ->
                 IF sg = sw THEN "ok"
                 ELSE IF sw \ sg # {} THEN "missing" ELSE "extra"
            [] Aspect = "tone" ->
                 \* tones of the readings whose segments are right
                 LET gt == {e \in got : <<e[1], e[2], e[3]>> \in sw}
                     wt == {e \in want : <<e[1], e[2], e[3]>> \in sg}
                 IN IF gt = wt THEN "ok" ELSE "tone"
            [] OTHER ->
                 IF want \ got # {} THEN "missing" ELSE "extra"

Diff(r) ==
  IF "x" \in DOMAIN r THEN <<r.x>>
  ELSE LET got == RangeOf(r.e)
           want == ReadText(r.w, RangeOf(r.b), ByFirst)
       IN <<want \ got, got \ want>>

VARIABLES i, bad

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v \o " "
                                 \o ToString(Diff(Trace[i + 1])))
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>

(* Every record was consumed *)
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
