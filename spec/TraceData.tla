------------------------------ MODULE TraceData -----------------------------
(***************************************************************************)
(* Validation of exception data as shipped.  LIST is the list as it is     *)
(* compiled (one record with the bytes b).  A record of the trace has      *)
(*   f, l   a file and the bytes of one of its lines, or                   *)
(*   k, e   a listed word (code units) and the edges of its reading.       *)
(***************************************************************************)
EXTENDS ExceptionData, Json, IOUtils
P == INSTANCE Parser

Trace == ndJsonDeserialize(IOEnv.TRACE)
Compiled == Listed(ndJsonDeserialize(IOEnv.LIST)[1].b)
Entries == {<<Compiled[k].key, Compiled[k].data>> : k \in DOMAIN Compiled}

LineVerdict(l) ==
  LET x == Parse(l) IN
  CASE x.bad \/ x.odd -> "malformed line"
    [] ~(Len(x.key) > 0 /\ DataOK(x.data, Len(x.key))) -> "malformed data"
    [] <<x.key, x.data>> \notin Entries -> "line is not compiled"
    [] \E y \in Entries : y[1] = x.key /\ y[2] # x.data -> "word listed twice"
    [] OTHER -> "ok"

Want(k) ==
  LET ys == {y \in Entries : y[1] = k}
  IN UNION { UNION { P!ReadingEdges(r, 0, 0, "", "") : r \in ReadingsOf(y[2]) } : y \in ys }

(* A word that begins with another listed word may also be read as that    *)
(* word and the rest.                                                      *)
Prefixed(k) == \E y \in Entries : /\ Len(y[1]) \in 1..(Len(k) - 1)
                                  /\ SubSeq(k, 1, Len(y[1])) = y[1]
ByFirst ==
  LET es == { [k |-> y[1], r |-> ReadingsOf(y[2])]
              : y \in {z \in Entries : Len(z[1]) > 0 /\ DataOK(z[2], Len(z[1]))} }
  IN [c \in {x.k[1] : x \in es} |-> {x \in es : x.k[1] = c}]

WordVerdict(r) ==
  LET got == {r.e[j] : j \in DOMAIN r.e}
  IN CASE ~(\E y \in Entries : y[1] = r.k) -> "word is not compiled"
       [] \E y \in Entries : y[1] = r.k /\ ~DataOK(y[2], Len(r.k)) -> "malformed data"
       [] Want(r.k) \ got # {} -> "listed reading is missing"
       [] got # Want(r.k) /\ ~Prefixed(r.k) -> "reads otherwise than listed"
       [] got # Want(r.k) /\ got # P!ReadText(r.k, {}, ByFirst) -> "reads otherwise than listed"
       [] OTHER -> "ok"

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x
              ELSE IF "l" \in DOMAIN r THEN LineVerdict(r.l) ELSE WordVerdict(r)

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
