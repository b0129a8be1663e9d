------------------------------- MODULE Ortho -------------------------------
(***************************************************************************)
(* Sound values of Thai letters and the tone rules.                        *)
(*                                                                         *)
(* Sounds are written with thpronun's one-letter raw codes, so that a      *)
(* syllable is a 5-letter string: initial, second initial, vowel, final,   *)
(* tone, e.g. "krOt1".                                                     *)
(*                                                                         *)
(*  initials : k c g j J y d t T n b p P f m r l w s h ?   (star: none)      *)
(*  second   : _ r l w                                                     *)
(*  vowels   : a i v u e x y z t o c w (short), upper case = long          *)
(*  finals   : _ k t p g n m y w                                           *)
(*  tones    : 0 mid  1 low  2 falling  3 high  4 rising   (star: none)      *)
(*                                                                         *)
(*  classes  : "H" high  "M" mid  "P" low paired  "S" low single           *)
(***************************************************************************)
EXTENDS ThaiChars

Initials == {"k","c","g","j","J","y","d","t","T","n","b","p","P","f","m",
             "r","l","w","s","h","?"}
Seconds  == {"_","r","l","w"}
ShortVowels == {"a","i","v","u","e","x","y","z","t","o","c","w"}
LongVowels  == {"A","I","V","U","E","X","Y","Z","T","O","C","W"}
Vowels   == ShortVowels \cup LongVowels
Finals   == {"_","k","t","p","g","n","m","y","w"}
Tones    == {"0","1","2","3","4"}

(* <<class, initial sound, final sound>> of each letter U+0E01..U+0E2E *)
LetterTbl == <<
  <<"M","k","k">>, <<"H","c","k">>, <<"H","c","k">>, <<"P","c","k">>,  \* ko khai, kho khai, kho khuat, kho khwai
  <<"P","c","k">>, <<"P","c","k">>, <<"S","g","g">>, <<"M","j","t">>,  \* kho khon, kho rakhang, ngo ngu, cho chan
  <<"H","J","t">>, <<"P","J","t">>, <<"P","s","t">>, <<"P","J","t">>,  \* cho ching, cho chang, so so, cho choe
  <<"S","y","n">>, <<"M","d","t">>, <<"M","t","t">>, <<"H","T","t">>,  \* yo ying, do chada, to patak, tho than
  <<"P","T","t">>, <<"P","T","t">>, <<"S","n","n">>, <<"M","d","t">>,  \* tho nangmontho, tho phuthao, no nen, do dek
  <<"M","t","t">>, <<"H","T","t">>, <<"P","T","t">>, <<"P","T","t">>,  \* to tao, tho thung, tho thahan, tho thong
  <<"S","n","n">>, <<"M","b","p">>, <<"M","p","p">>, <<"H","P","p">>,  \* no nu, bo baimai, po pla, pho phung
  <<"H","f","p">>, <<"P","P","p">>, <<"P","f","p">>, <<"P","P","p">>,  \* fo fa, pho phan, fo fan, pho samphao
  <<"S","m","m">>, <<"S","y","y">>, <<"S","r","n">>, <<"S","*","_">>,  \* mo ma, yo yak, ro rua, (ru)
  <<"S","l","n">>, <<"S","*","_">>, <<"S","w","w">>, <<"H","s","t">>,  \* lo ling, (lu), wo waen, so sala
  <<"H","s","t">>, <<"H","s","t">>, <<"H","h","_">>, <<"S","l","n">>,  \* so rusi, so sua, ho hip, lo chula
  <<"M","?","_">>, <<"P","h","_">> >>                                  \* o ang, ho nokhuk

Class(c)    == LetterTbl[c - \h0E00][1]
Sound(c)    == LetterTbl[c - \h0E00][2]
EndSound(c) == LetterTbl[c - \h0E00][3]

IsShort(v)   == v \in ShortVowels
IsDeadEnd(e) == e = "k" \/ e = "t" \/ e = "p"

(* A syllable is dead if it ends in a stop, or in a short open vowel *)
IsDead(v, e) == IF e = "_" THEN IsShort(v) ELSE IsDeadEnd(e)

(* The spoken tone from class of the initial, written tone mark, liveness  *)
(* and vowel length.                                                       *)
Tone(cls, mark, dead, short) ==
  CASE cls = "M" -> IF mark = "0" /\ dead THEN "1" ELSE mark
    [] cls = "H" -> IF mark = "0" THEN (IF dead THEN "1" ELSE "4") ELSE mark
    [] cls = "P" \/ cls = "S" ->
         (CASE mark = "0" -> IF dead THEN (IF short THEN "3" ELSE "2") ELSE "0"
            [] mark = "1" -> "2"
            [] mark = "2" -> "3"
            [] OTHER -> mark)
    [] OTHER -> mark

ToneMark(c) == CASE c = MAI_EK -> "1" [] c = MAI_THO -> "2"
                 [] c = MAI_TRI -> "3" [] c = MAI_CHATTAWA -> "4"

AboveBelowVowel(c) ==
  CASE c = SARA_I -> "i" [] c = SARA_II -> "I" [] c = SARA_UE -> "v"
    [] c = SARA_UEE -> "V" [] c = SARA_U -> "u" [] c = SARA_UU -> "U"
=============================================================================
