------------------------------ MODULE Syllable ------------------------------
(***************************************************************************)
(* Spoken syllables.  A syllable is a string of five code letters: initial *)
(* consonant, second consonant, vowel, final consonant, tone.  "k_A_0" is  *)
(* kaa in the mid tone.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reading, TLC

(* TLC treats strings as sequences of characters only for Len and SubSeq *)
Chr(s, i) == SubSeq(s, i, i)

Init(s)  == Chr(s, 1)
Sec(s)   == Chr(s, 2)
Vow(s)   == Chr(s, 3)
Fin(s)   == Chr(s, 4)
Ton(s)   == Chr(s, 5)

IsCode(s) == /\ Len(s) = 5
             /\ Init(s) \in Initials /\ Sec(s) \in Seconds
             /\ Vow(s) \in Vowels /\ Fin(s) \in Finals /\ Ton(s) \in Tones

(* ------------------------------ notations ------------------------------ *)
PhInit == [x \in Initials |->
  CASE x = "c" -> "kh" [] x = "g" -> "ng" [] x = "J" -> "ch" [] x = "T" -> "th"
    [] x = "P" -> "ph" [] x = "?" -> "" [] OTHER -> x]
RoInit == [x \in Initials |-> IF x = "j" THEN "ch" ELSE PhInit[x]]
SxInit == [x \in Initials |-> IF x = "r" THEN "l" ELSE x]

Second == [x \in Seconds |-> IF x = "_" THEN "" ELSE x]

PhVow == [x \in Vowels |->
  CASE x = "a" -> "ah"   [] x = "A" -> "aa"   [] x = "i" -> "ih"  [] x = "I" -> "iy"
    [] x = "v" -> "ueh"  [] x = "V" -> "uee"  [] x = "u" -> "uh"  [] x = "U" -> "uw"
    [] x = "e" -> "eh"   [] x = "E" -> "ey"   [] x = "x" -> "aeh" [] x = "X" -> "aee"
    [] x = "y" -> "iah"  [] x = "Y" -> "iaa"  [] x = "z" -> "ueah"
    [] x = "Z" -> "ueaa" [] x = "t" -> "uah"  [] x = "T" -> "uaa" [] x = "o" -> "oh"
    [] x = "O" -> "ow"   [] x = "c" -> "aoh"  [] x = "C" -> "aow" [] x = "w" -> "oeh"
    [] x = "W" -> "oee"]
(* vowel quality, whatever the length *)
Quality == [x \in Vowels |->
  CASE x \in {"a","A"} -> "a" [] x \in {"i","I"} -> "i" [] x \in {"v","V"} -> "v"
    [] x \in {"u","U"} -> "u" [] x \in {"e","E"} -> "e" [] x \in {"x","X"} -> "x"
    [] x \in {"y","Y"} -> "y" [] x \in {"z","Z"} -> "z" [] x \in {"t","T"} -> "t"
    [] x \in {"o","O"} -> "o" [] x \in {"c","C"} -> "c" [] x \in {"w","W"} -> "w"]
RoVow == [x \in Vowels |->
  LET q == Quality[x] IN
  CASE q = "v" -> "ue" [] q = "x" -> "ae" [] q = "y" -> "ia" [] q = "z" -> "uea"
    [] q = "t" -> "ua" [] q = "c" -> "o"  [] q = "w" -> "oe" [] OTHER -> q]

PhFin == [x \in Finals |-> CASE x = "_" -> "" [] x = "g" -> "ng" [] OTHER -> x]
RoFin == [x \in Finals |-> CASE x = "_" -> "" [] x = "g" -> "ng" [] x = "y" -> "i"
                             [] x = "w" -> "o" [] OTHER -> x]

Phonetic(s) == PhInit[Init(s)] \o Second[Sec(s)] \o PhVow[Vow(s)]
               \o PhFin[Fin(s)] \o Ton(s)
Roman(s)    == RoInit[Init(s)] \o Second[Sec(s)] \o RoVow[Vow(s)] \o RoFin[Fin(s)]
Soundex(s)  == SxInit[Init(s)] \o Quality[Vow(s)] \o Fin(s)
Raw(s, end) == s \o "@" \o ToString(end)

(* --------------------------- Thai respelling --------------------------- *)
(* What a respelling in Thai letters says, read by the spelling rules: a   *)
(* dot below joins two initial letters, and each vowel form has one        *)
(* reading.  The value is a syllable code, or "" if the respelling is not  *)
(* well-formed.                                                            *)
Finalable(c) == IsCons(c) /\ EndSound(c) # "_"
F1(t) == IF Len(t) = 1 /\ Finalable(t[1]) THEN EndSound(t[1]) ELSE ""

(* vowel and final from leading vowel, vowel sign above or below, whether  *)
(* there is a shortening sign, and the letters after them                  *)
RhymeOf(ld, v, short, t) ==
  LET n == Len(t)
      f1 == F1(t)                                       \* one final
      f2 == IF n = 2 THEN F1(<<t[2]>>) ELSE ""          \* a final after one sign
      fin(x, f) == IF f = "" THEN "" ELSE x \o f
  IN
  CASE ld = 0 /\ v = 0 /\ ~short ->
         (CASE n = 1 /\ t[1] = SARA_A  -> "a_"
            [] n = 1 /\ t[1] = SARA_AA -> "A_"
            [] n = 2 /\ t[1] = SARA_AA -> fin("A", f2)
            [] n = 1 /\ t[1] = O_ANG   -> "C_"
            [] n = 2 /\ t[1] = O_ANG   -> fin("C", f2)
            [] n = 2 /\ t[1] = WO_WAEN -> fin("T", f2)
            [] n = 1                   -> fin("o", f1)
            [] OTHER                   -> "")
    [] ld = 0 /\ v = 0 /\ short ->
         (CASE n = 2 /\ t[1] = O_ANG   -> fin("c", f2)
            [] n = 2 /\ t[1] = WO_WAEN -> fin("t", f2)
            [] OTHER                   -> "")
    [] ld = 0 /\ v = MAI_HAN_AKAT /\ ~short ->
         (CASE n = 1 /\ t[1] = WO_WAEN -> "T_"
            [] n = 2 /\ t[1] = WO_WAEN /\ t[2] = SARA_A -> "t_"
            [] n = 1                   -> fin("a", f1)
            [] OTHER                   -> "")
    [] ld = 0 /\ v = SARA_UEE /\ ~short ->
         (CASE n = 1 /\ t[1] = O_ANG   -> "V_"
            [] n = 1                   -> fin("V", f1)
            [] OTHER                   -> "")
    [] ld = 0 /\ v # 0 /\ ~short ->
         (CASE n = 0 -> AboveBelowVowel(v) \o "_"
            [] n = 1 -> fin(AboveBelowVowel(v), f1)
            [] OTHER -> "")
    [] ld = SARA_E /\ v = 0 /\ ~short ->
         (CASE n = 0                    -> "E_"
            [] n = 1 /\ t[1] = SARA_A   -> "e_"
            [] n = 1 /\ t[1] = SARA_AA  -> "aw"
            [] n = 2 /\ t[1] = SARA_AA /\ t[2] = SARA_A -> "c_"
            [] n = 1 /\ t[1] = O_ANG    -> "W_"
            [] n = 2 /\ t[1] = O_ANG /\ t[2] = SARA_A   -> "w_"
            [] n = 1 /\ t[1] = YO_YAK   -> "Wy"
            [] n = 1                    -> fin("E", f1)
            [] OTHER                    -> "")
    [] ld = SARA_E /\ v = 0 /\ short   -> fin("e", f1)
    [] ld = SARA_E /\ v = SARA_I /\ ~short -> fin("W", f1)
    [] ld = SARA_E /\ v = SARA_II /\ ~short /\ n >= 1 /\ t[1] = YO_YAK ->
         (CASE n = 1 -> "Y_"
            [] n = 2 /\ t[2] = SARA_A -> "y_"
            [] OTHER -> fin("Y", f2))
    [] ld = SARA_E /\ v = SARA_UEE /\ ~short /\ n >= 1 /\ t[1] = O_ANG ->
         (CASE n = 1 -> "Z_"
            [] n = 2 /\ t[2] = SARA_A -> "z_"
            [] OTHER -> fin("Z", f2))
    [] ld = SARA_AE /\ v = 0 /\ ~short ->
         (CASE n = 0 -> "X_"
            [] n = 1 /\ t[1] = SARA_A -> "x_"
            [] n = 1 -> fin("X", f1)
            [] OTHER -> "")
    [] ld = SARA_AE /\ v = 0 /\ short -> fin("x", f1)
    [] ld = SARA_O /\ v = 0 /\ ~short ->
         (CASE n = 0 -> "O_"
            [] n = 1 /\ t[1] = SARA_A -> "o_"
            [] n = 1 -> fin("O", f1)
            [] OTHER -> "")
    [] OTHER -> ""

SecondOf(c) == CASE c = RO_RUA -> "r" [] c = LO_LING -> "l" [] c = WO_WAEN -> "w"
                 [] OTHER -> "*"

Drop(t, n) == SubSeq(t, n + 1, Len(t))
Nth(t, n) == IF Len(t) >= n THEN t[n] ELSE 0

Spelt(t) ==
  LET ld == IF Nth(t, 1) \in {SARA_E, SARA_AE, SARA_O} THEN t[1] ELSE 0
      a == IF ld = 0 THEN t ELSE Drop(t, 1)
      \* silent high-class leader
      ho == Nth(a, 1) = HO_HIP /\ Nth(a, 2) = PHINTHU /\ IsCons(Nth(a, 3))
      b == IF ho THEN Drop(a, 2) ELSE a
      ok1 == IsCons(Nth(b, 1))
      cls == IF ho THEN "H" ELSE Class(b[1])
      c == Drop(b, 1)
      two == Nth(c, 1) = PHINTHU
      sec == IF two THEN SecondOf(Nth(c, 2)) ELSE "_"
      d == IF two THEN Drop(c, 2) ELSE c
      v == IF IsUpVowel(Nth(d, 1)) \/ IsBlVowel(Nth(d, 1)) THEN d[1] ELSE 0
      e == IF v = 0 THEN d ELSE Drop(d, 1)
      m == IF IsTone(Nth(e, 1)) \/ Nth(e, 1) = MAITAIKHU THEN e[1] ELSE 0
      f == IF m = 0 THEN e ELSE Drop(e, 1)
      rh == RhymeOf(ld, v, m = MAITAIKHU, f)
      mark == IF IsTone(m) THEN ToneMark(m) ELSE "0"
      \* mai tri and mai chattawa belong to middle class letters; only the
      \* rising tone of a dead syllable can not be written otherwise
      badmark == /\ mark \in {"3", "4"} /\ cls # "M"
                 /\ rh # "" => mark = "3" \/ ~IsDead(Chr(rh, 1), Chr(rh, 2))
  IN IF ~ok1 \/ sec = "*" THEN ""
     ELSE IF rh = "" \/ badmark THEN ""
     ELSE Sound(b[1]) \o sec \o rh
          \o Tone(cls, mark, IsDead(Chr(rh, 1), Chr(rh, 2)), IsShort(Chr(rh, 1)))

HasToneMark(t) == \E i \in 1..Len(t) : IsTone(t[i])
=============================================================================
