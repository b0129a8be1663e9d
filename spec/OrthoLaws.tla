----------------------------- MODULE OrthoLaws -----------------------------
(***************************************************************************)
(* A written syllable is put together choice by choice: initial letter,    *)
(* vowel, final letter, tone mark.  The laws are what every description of *)
(* Thai spelling says about the outcome; they do not depend on how the     *)
(* tables of Ortho are written.                                            *)
(***************************************************************************)
EXTENDS Ortho

Letters == {c \in KO_KAI..HO_NOKHUK : IsCons(c)}
Marks   == {"0", "1", "2", "3", "4"}
NoFinal == 0

VARIABLES ini, vow, fin, mark
vars == <<ini, vow, fin, mark>>

Init == ini = 0 /\ vow = "" /\ fin = 0 /\ mark = ""
PutInitial == ini = 0 /\ ini' \in Letters /\ UNCHANGED <<vow, fin, mark>>
PutVowel == ini # 0 /\ vow = "" /\ vow' \in Vowels /\ UNCHANGED <<ini, fin, mark>>
PutFinal == /\ vow # "" /\ fin = 0 /\ mark = ""
            /\ fin' \in {c \in Letters : EndSound(c) # "_"}
            /\ UNCHANGED <<ini, vow, mark>>
PutMark == vow # "" /\ mark = "" /\ mark' \in Marks /\ UNCHANGED <<ini, vow, fin>>
Next == PutInitial \/ PutVowel \/ PutFinal \/ PutMark
Spec == Init /\ [][Next]_vars

End  == IF fin = NoFinal THEN "_" ELSE EndSound(fin)
Dead == IsDead(vow, End)
ToneOf(c, m) == Tone(Class(c), m, Dead, IsShort(vow))
Low(c) == Class(c) \in {"P", "S"}

Done == mark # ""

(* every letter has a class and a sound *)
Sounded == ini # 0 => Class(ini) \in {"H", "M", "P", "S"} /\ Sound(ini) \in Initials

(* a paired low letter has a high one of the same sound and the other way  *)
(* round; single low and mid letters have none                             *)
Of(cls, s) == {c \in Letters : Class(c) = cls /\ Sound(c) = s}
Paired == ini # 0 =>
  LET s == Sound(ini)
  IN CASE Class(ini) = "P" -> Of("H", s) # {}
       [] Class(ini) = "H" -> Of("P", s) # {}
       [] Class(ini) = "S" -> Of("H", s) = {} /\ Of("M", s) = {} /\ Of("P", s) = {}
       [] Class(ini) = "M" -> Of("H", s) = {} /\ Of("S", s) = {} /\ Of("P", s) = {}

(* letters of one sound, if not semivowels or liquids, have one final *)
Stops == ini # 0 =>
  \A c \in Letters : Sound(c) = Sound(ini) /\ Sound(c) # "y" => EndSound(c) = EndSound(ini)

(* no syllable that ends in a stop or a short vowel has the mid tone, and  *)
(* only a mark gives it the rising one                                     *)
DeadTones == Done /\ Dead => /\ ToneOf(ini, mark) = "0" => FALSE
                             /\ mark = "0" => ToneOf(ini, mark) # "4"
(* without a mark: live syllables are mid, with a high initial rising *)
Unmarked == Done /\ mark = "0" /\ ~Dead =>
              ToneOf(ini, mark) = (IF Class(ini) = "H" THEN "4" ELSE "0")
(* a mark says the tone whatever vowel and final are *)
Marked == Done /\ mark # "0" =>
  ToneOf(ini, mark) = (IF Low(ini) /\ mark \in {"1", "2"}
                         THEN (IF mark = "1" THEN "2" ELSE "3") ELSE mark)
(* a sound with letters in both the high and the low class can be written  *)
(* in all five tones in a live syllable; the mid class can do so alone     *)
AllTones == Done /\ ~Dead =>
  /\ Class(ini) = "P" =>
       LET h == CHOOSE c \in Of("H", Sound(ini)) : TRUE
       IN {ToneOf(ini, m) : m \in {"0", "1", "2"}}
          \cup {ToneOf(h, m) : m \in {"0", "1", "2"}} = Tones
  /\ Class(ini) = "M" => {ToneOf(ini, m) : m \in Marks} = Tones
(* vowel length is heard in the tone only after a low initial *)
Length == Done /\ fin # NoFinal /\ Dead =>
  (Tone(Class(ini), mark, TRUE, TRUE) # Tone(Class(ini), mark, TRUE, FALSE))
     <=> (Low(ini) /\ mark = "0")
=============================================================================
