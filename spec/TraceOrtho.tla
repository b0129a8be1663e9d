----------------------------- MODULE TraceOrtho -----------------------------
(***************************************************************************)
(* Validation of what the letter and tone tables of the implementation     *)
(* say, and (kind K) of the character classes of libthai.                  *)
(***************************************************************************)
EXTENDS Ortho, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Marks == <<"0", "1", "2", "3", "4">>
TonesOf(c, v, f) ==
  LET t(i) == Tone(Class(c), Marks[i], IsDead(v, f), IsShort(v))
  IN t(1) \o t(2) \o t(3) \o t(4) \o t(5)

Bit(b) == IF b THEN "1" ELSE "0"
Classes(c) == Bit(IsCons(c)) \o Bit(IsLdVowel(c)) \o Bit(IsUpVowel(c))
              \o Bit(IsBlVowel(c)) \o Bit(IsTone(c)) \o Bit(IsVowel(c)) \o Bit(IsThai(c))

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed " \o r.x
  ELSE CASE r.k = "L" ->
         (CASE r.a # Class(r.c)    -> "class " \o r.a
            [] r.s # Sound(r.c)    -> "sound " \o r.s
            [] r.e # EndSound(r.c) -> "final " \o r.e
            [] OTHER -> "ok")
    [] r.k = "T" -> IF r.t = TonesOf(r.c, r.v, r.f) THEN "ok" ELSE "tones " \o r.t
    [] r.k = "I" -> IF r.c \in Initials /\ r.r = r.c THEN "ok" ELSE "initial " \o r.r
    [] r.k = "F" -> IF r.c \in Finals /\ r.r = r.c THEN "ok" ELSE "final " \o r.r
    [] r.k = "M" -> IF r.c \in Tones /\ r.r = r.c THEN "ok" ELSE "tone " \o r.r
    [] r.k = "K" -> IF r.r = Classes(r.c) THEN "ok" ELSE "libthai " \o r.r

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
