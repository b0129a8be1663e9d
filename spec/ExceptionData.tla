---------------------------- MODULE ExceptionData ---------------------------
(***************************************************************************)
(* Exception data: what the data of a listed word (a sequence of bytes)    *)
(* says.  Alternatives are separated by ";", syllables by ",".  A syllable *)
(* is five code letters, "@" and the position where it ends: a position    *)
(* within the word, or, for a half syllable, -(100 * from + to) with the   *)
(* ends of the syllable it belongs to.                                     *)
(***************************************************************************)
EXTENDS WordList

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, sep, p) ==
  LET at == {q \in p..Len(s) : s[q] = sep}
  IN IF at = {} THEN <<SubSeq(s, p, Len(s))>>
     ELSE LET q == CHOOSE x \in at : \A y \in at : x <= y
          IN <<SubSeq(s, p, q - 1)>> \o SplitFrom(s, sep, q + 1)
Split(s, sep) == SplitFrom(s, sep, 1)

(* code letters by their bytes *)
CodeInit == 107 :> "k" @@ 99 :> "c" @@ 103 :> "g" @@ 106 :> "j" @@ 74 :> "J"
  @@ 121 :> "y" @@ 100 :> "d" @@ 116 :> "t" @@ 84 :> "T" @@ 110 :> "n" @@ 98 :> "b"
  @@ 112 :> "p" @@ 80 :> "P" @@ 102 :> "f" @@ 109 :> "m" @@ 114 :> "r" @@ 108 :> "l"
  @@ 119 :> "w" @@ 115 :> "s" @@ 104 :> "h" @@ 63 :> "?"
CodeSec == 95 :> "_" @@ 114 :> "r" @@ 108 :> "l" @@ 119 :> "w"
CodeVow == 97 :> "a" @@ 65 :> "A" @@ 105 :> "i" @@ 73 :> "I" @@ 118 :> "v" @@ 86 :> "V"
  @@ 117 :> "u" @@ 85 :> "U" @@ 101 :> "e" @@ 69 :> "E" @@ 120 :> "x" @@ 88 :> "X"
  @@ 121 :> "y" @@ 89 :> "Y" @@ 122 :> "z" @@ 90 :> "Z" @@ 116 :> "t" @@ 84 :> "T"
  @@ 111 :> "o" @@ 79 :> "O" @@ 99 :> "c" @@ 67 :> "C" @@ 119 :> "w" @@ 87 :> "W"
CodeFin == 95 :> "_" @@ 107 :> "k" @@ 116 :> "t" @@ 112 :> "p" @@ 103 :> "g"
  @@ 110 :> "n" @@ 109 :> "m" @@ 121 :> "y" @@ 119 :> "w"
CodeTone == 48 :> "0" @@ 49 :> "1" @@ 50 :> "2" @@ 51 :> "3" @@ 52 :> "4"

RECURSIVE Digits(_, _, _)
Digits(s, p, acc) == IF p > Len(s) THEN acc ELSE Digits(s, p + 1, 10 * acc + s[p] - 48)
IsNumber(s) == /\ Len(s) \in 1..6
               /\ \A p \in DOMAIN s : s[p] \in 48..57
               /\ Len(s) > 1 => s[1] # 48

IsSyl(s) ==
  /\ Len(s) >= 7
  /\ s[1] \in DOMAIN CodeInit /\ s[2] \in DOMAIN CodeSec /\ s[3] \in DOMAIN CodeVow
  /\ s[4] \in DOMAIN CodeFin /\ s[5] \in DOMAIN CodeTone /\ s[6] = 64
  /\ IsNumber(SubSeq(s, IF s[7] = 45 THEN 8 ELSE 7, Len(s)))
EndOf(s) == IF s[7] = 45 THEN -Digits(s, 8, 0) ELSE Digits(s, 7, 0)
SylOf(s) == << CodeInit[s[1]] \o CodeSec[s[2]] \o CodeVow[s[3]] \o CodeFin[s[4]],
               CodeTone[s[5]], EndOf(s) >>

(* Positions of a reading of a word with n letters: from is where the      *)
(* syllable that begins at k starts                                        *)
RECURSIVE Placed(_, _, _, _)
Placed(r, k, from, n) ==
  IF k > Len(r) THEN from = n
  ELSE LET e == r[k][3]
       IN IF e > 0 THEN from < e /\ e <= n /\ Placed(r, k + 1, e, n)
          ELSE /\ k < Len(r) /\ r[k + 1][3] > 0
               /\ e = -(100 * from + r[k + 1][3])
               /\ Placed(r, k + 1, from, n)

RECURSIVE ReadingOf(_, _)
ReadingOf(ss, k) == IF k > Len(ss) THEN <<>> ELSE <<SylOf(ss[k])>> \o ReadingOf(ss, k + 1)

AltOK(alt, n) ==
  LET ss == Split(alt, 44)
  IN (\A k \in DOMAIN ss : IsSyl(ss[k])) /\ Placed(ReadingOf(ss, 1), 1, 0, n)
DataOK(data, n) ==
  LET alts == Split(data, 59) IN \A k \in DOMAIN alts : AltOK(alts[k], n)
ReadingsOf(data) ==
  LET alts == Split(data, 59)
  IN { ReadingOf(Split(alts[k], 44), 1) : k \in DOMAIN alts }
=============================================================================
