------------------------------ MODULE TraceSyl ------------------------------
(***************************************************************************)
(* Validation of recorded syllables: how they are written in each          *)
(* notation, and how syllable strings are built, shifted and appended.     *)
(***************************************************************************)
EXTENDS Syllable, Json, IOUtils

CONSTANTS Aspect        \* "tables", "thai" or "codes"

Trace == ndJsonDeserialize(IOEnv.TRACE)

Code(r) == SubSeq(r.a[1], 1, 5)

(* ------------------------------- tables -------------------------------- *)
Tables(r) ==
  CASE r.k = "N" ->
         LET s == Code(r)
         IN CASE r.r # Raw(s, r.e)     -> "raw"
              [] r.p # Phonetic(s)     -> "phonetic"
              [] r.o # Roman(s)        -> "roman"
              [] r.s # Soundex(s)      -> "soundex"
              [] OTHER                 -> "ok"
    [] r.k = "L" ->
         LET w == "(" \o r.v \o ")"
         IN CASE r.r # w \o "@" \o r.a[2] -> "raw literal"
              [] r.p # w -> "phonetic literal"
              [] r.o # w -> "roman literal"
              [] r.s # w -> "soundex literal"
              [] r.t # w -> "thai literal"
              [] OTHER -> "ok"
    [] r.k = "B" ->
         IF <<r.r, r.p, r.o, r.s, r.t>> = <<" ", " ", " ", " ", " ">>
           THEN "ok" ELSE "blank"

(* --------------------------- Thai respelling --------------------------- *)
(* Syllables that Thai has a spelling for *)
Occurs(s) ==
  LET dead == IsDead(Vow(s), Fin(s))
  IN /\ dead => Ton(s) # "0"
     /\ Init(s) = "h" => Sec(s) = "_"
     /\ Fin(s) = "y" => Vow(s) \notin {"e", "E"}       \* written like -oey

LongOf(v) == CASE v = "e" -> "E" [] v = "x" -> "X" [] v = "c" -> "C"
               [] v = "t" -> "T" [] v = "y" -> "Y" [] v = "z" -> "Z"
               [] v = "w" -> "W" [] OTHER -> v

(* Spelling cannot show that short ia, uea, oe are short before a final,   *)
(* nor that e, ae, au, ua are if there is a tone mark                      *)
Shown(s, t) ==
  LET v == Vow(s)
      lost == /\ Fin(s) # "_"
              /\ \/ v \in {"y", "z", "w"}
                 \/ v \in {"e", "x", "c", "t"} /\ HasToneMark(t)
  IN IF lost THEN SubSeq(s, 1, 2) \o LongOf(v) \o SubSeq(s, 4, 5) ELSE s

(* The reading rules of the reader allow that reading, too, except for     *)
(* clusters which need the dot and rhymes the rules do not know            *)
HasRule(s) == /\ Sec(s) = "_"
              /\ Fin(s) # "_" => Vow(s) # "t"
              /\ Fin(s) = "y" => Vow(s) \notin {"i", "I", "o"}
              /\ Fin(s) = "w" => Vow(s) # "o"
NoDots(t) == SelectSeq(t, LAMBDA c : c # PHINTHU)
ByRule(s, t) == LET u == NoDots(t)
                IN \E a \in RuleArcs(u, 0, Len(u), FALSE) :
                     a.to = Len(u) /\ a.seg \o a.tn = s

Thai(r) ==
  IF r.k # "N" THEN "ok"
  ELSE LET s == Code(r)
       IN IF Len(r.u) = 0 THEN "empty"
          ELSE IF ~Occurs(s) THEN "ok"
          ELSE LET got == Spelt(r.u)
               IN IF got # Shown(s, r.u) THEN "read back as " \o got
                  ELSE IF HasRule(got) /\ ~ByRule(got, r.u) THEN "not by rule"
                  ELSE "ok"

(* ------------------------------- codes --------------------------------- *)
(* descriptions come from the harness already cut into codes and ends: d   *)
RawList(d) == [i \in DOMAIN d |-> Raw(d[i][1], d[i][2])]
EndOf(d) == IF d = <<>> THEN 0 ELSE d[Len(d)][2]
ShiftEnd(e, off) == IF e < 0 THEN e - 101 * off ELSE e + off
Shifted(d, off) == [i \in DOMAIN d |-> <<d[i][1], ShiftEnd(d[i][2], off)>>]

Codes(r) ==
  CASE r.k = "N" \/ r.k = "K" ->
         IF r.g = Code(r) /\ r.r = Raw(r.g, r.e) /\ r.e = r.n THEN "ok" ELSE "code or position"
    [] r.k = "S" ->
         IF r.l = RawList(r.d) /\ r.e = EndOf(r.d) THEN "ok" ELSE "string"
    [] r.k = "H" ->
         LET x == Shifted(r.d, r.off)
         IN IF r.l = RawList(x) /\ r.e = EndOf(x) THEN "ok" ELSE "shift"
    [] r.k = "A" ->
         LET x == r.d \o r.d
         IN IF r.l = RawList(x) /\ r.e = EndOf(x) THEN "ok" ELSE "append self"
    [] r.k = "P" ->
         LET x == r.d \o r.d2
         IN IF r.l = RawList(x) /\ r.e = EndOf(x) THEN "ok" ELSE "append"

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed " \o r.x
  ELSE CASE Aspect = "tables" -> Tables(r)
         [] Aspect = "thai" -> Thai(r)
         [] Aspect = "codes" -> Codes(r)

VARIABLES i, bad
InitTrace == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == InitTrace /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
