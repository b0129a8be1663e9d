------------------------------ MODULE WordList ------------------------------
(***************************************************************************)
(* Word lists: what a list file (a sequence of bytes) says, and what a     *)
(* lookup in the dictionary made from it has to find.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

TAB == 9   LF == 10

(* ------------------------------- UTF-8 --------------------------------- *)
(* Number of bytes a character has by its first byte; 0: no first byte *)
Width(b) == CASE b < 128 -> 1 [] b >= 194 /\ b <= 223 -> 2
              [] b >= 224 /\ b <= 239 -> 3 [] b >= 240 /\ b <= 244 -> 4
              [] OTHER -> 0
Lead(b, w) == CASE w = 1 -> b [] w = 2 -> b - 192 [] w = 3 -> b - 224 [] w = 4 -> b - 240
Least(w) == CASE w = 1 -> 0 [] w = 2 -> 128 [] w = 3 -> 2048 [] w = 4 -> 65536

RECURSIVE Bits(_, _, _, _)
Bits(s, p, n, acc) ==           \* n continuation bytes from p on, or -1
  IF n = 0 THEN acc
  ELSE IF p > Len(s) THEN -1
  ELSE IF s[p] < 128 \/ s[p] > 191 THEN -1
  ELSE Bits(s, p + 1, n - 1, acc * 64 + (s[p] - 128))

Bad == <<-1>>
RECURSIVE Decode(_, _)
Decode(s, p) ==                 \* characters from byte p on; Bad if malformed
  IF p > Len(s) THEN <<>>
  ELSE LET w == Width(s[p])
       IN IF w = 0 THEN Bad
          ELSE LET c == Bits(s, p + 1, w - 1, Lead(s[p], w))
               IN IF c < Least(w) \/ c > 1114111 \/ (c >= 55296 /\ c <= 57343) THEN Bad
                  ELSE LET r == Decode(s, p + w)
                       IN IF r = Bad THEN Bad ELSE <<c>> \o r

(* -------------------------------- lines -------------------------------- *)
(* Lines without their ends; a last line may lack its end *)
Lines(b) ==
  LET ends == SelectSeq([q \in 1..Len(b) |-> q], LAMBDA q : b[q] = LF)
      n == Len(ends)
      from(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
      whole == [k \in 1..n |-> SubSeq(b, from(k), ends[k] - 1)]
  IN IF from(n + 1) > Len(b) THEN whole
     ELSE Append(whole, SubSeq(b, from(n + 1), Len(b)))

TabOf(l) == LET ts == {p \in DOMAIN l : l[p] = TAB}
            IN IF ts = {} THEN 0 ELSE CHOOSE x \in ts : \A y \in ts : x <= y
KeyOf(l)  == Decode(SubSeq(l, 1, TabOf(l) - 1), 1)
DataOf(l) == SubSeq(l, TabOf(l) + 1, Len(l))

(* Lines this long have to be accepted; longer ones may be refused *)
MaxLine == 254

ThaiLetter(c) == c >= 3585 /\ c <= 3675         \* U+0E01 to U+0E5B

(* What is known of a line: its key and data, and whether it is good.  A   *)
(* line with an empty word is neither good nor bad.                        *)
Parse(l) ==
  LET t == TabOf(l)
      k == IF t = 0 THEN Bad ELSE KeyOf(l)
  IN [key |-> k, data |-> IF t = 0 THEN <<>> ELSE DataOf(l),
      bad |-> \/ t = 0 \/ k = Bad
              \/ \E j \in DOMAIN k : ~ThaiLetter(k[j]),
      odd |-> k = <<>> \/ Len(l) > MaxLine]

RECURSIVE ParseAll(_, _)
ParseAll(ls, k) == IF k > Len(ls) THEN <<>> ELSE <<Parse(ls[k])>> \o ParseAll(ls, k + 1)

(* Entries of a list, in order *)
Listed(b) == ParseAll(Lines(b), 1)

Malformed(es) == \E k \in DOMAIN es : es[k].bad
Odd(es)       == \E k \in DOMAIN es : es[k].odd

(* ------------------------------- lookup -------------------------------- *)
(* pairs <<key, data>>: for a repeated key, the data listed last *)
Content(es) ==
  { <<es[k].key, es[k].data>> : k \in
      {j \in DOMAIN es : /\ es[j].key # <<>>
                         /\ \A h \in (j + 1)..Len(es) : es[h].key # es[j].key} }

MatchesAt(content, t, p) ==     \* positions count from 0
  { <<p, p + Len(x[1]), x[2]>> : x \in
      {y \in content : /\ p + Len(y[1]) <= Len(t)
                       /\ SubSeq(t, p + 1, p + Len(y[1])) = y[1]} }

AllMatches(content, t) == UNION { MatchesAt(content, t, p) : p \in 0..(Len(t) - 1) }

(* m lists the matches: each once, shortest first at each position *)
Finds(content, t, m) ==
  LET want == AllMatches(content, t)
  IN /\ Len(m) = Cardinality(want)
     /\ {m[k] : k \in DOMAIN m} = want
     /\ \A j, k \in DOMAIN m : j < k /\ m[j][1] = m[k][1] => m[j][2] < m[k][2]
=============================================================================
