------------------------------- MODULE Strings ------------------------------
(***************************************************************************)
(* Syllables and syllable strings as values.                               *)
(*                                                                         *)
(* A syllable is a pair <<label, position>>, a string a sequence of        *)
(* syllables.  They live in numbered places of a state [s, y]; every       *)
(* operation changes one place (moving empties another one).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Labels(x) == [k \in DOMAIN x |-> x[k][1]]
EndOf(x) == IF x = <<>> THEN 0 ELSE x[Len(x)][2]

(* A position below zero stands for a range: - (100 * begin + end)         *)
ShiftPos(e, off) == IF e < 0 THEN e - 101 * off ELSE e + off
Shift(x, off) == [k \in DOMAIN x |-> <<x[k][1], ShiftPos(x[k][2], off)>>]

(* Operations o: <<kind of place, operation, place, argument...>>.         *)
(*   s strings: n new   d of given syllables   k from a syllable           *)
(*              y copy   m move   = assign   S assign a syllable           *)
(*              + append   a append a syllable   h shift the positions     *)
(*              e set the position of one syllable                         *)
(*   y syllables: k of a given label and position   y copy   = assign      *)
(*              p set the position   g take out of a string                *)
Value(g, o) ==
  LET kind == o[1]  op == o[2]  x == o[3]
  IN CASE kind = "s" /\ op = "n" -> <<>>
       [] kind = "s" /\ op = "d" -> o[4]
       [] kind = "s" /\ op \in {"k", "S"} -> <<g.y[o[4]]>>
       [] kind = "s" /\ op \in {"y", "m", "="} -> g.s[o[4]]
       [] kind = "s" /\ op = "+" -> g.s[x] \o g.s[o[4]]
       [] kind = "s" /\ op = "a" -> Append(g.s[x], g.y[o[4]])
       [] kind = "s" /\ op = "h" -> Shift(g.s[x], o[4])
       [] kind = "s" /\ op = "e" -> [g.s[x] EXCEPT ![o[4]] = <<@[1], o[5]>>]
       [] kind = "y" /\ op = "k" -> <<o[4], o[5]>>
       [] kind = "y" /\ op \in {"y", "="} -> g.y[o[4]]
       [] kind = "y" /\ op = "p" -> <<g.y[x][1], o[4]>>
       [] kind = "y" /\ op = "g" -> g.s[o[4]][o[5]]

(* What is not there cannot be taken out or changed *)
Possible(g, o) ==
  CASE o[1] = "s" /\ o[2] = "e" -> o[4] \in DOMAIN g.s[o[3]]
    [] o[1] = "y" /\ o[2] = "g" -> o[5] \in DOMAIN g.s[o[4]]
    [] OTHER -> TRUE

After(g, o) ==
  IF ~Possible(g, o) THEN g
  ELSE LET v == Value(g, o)
       IN CASE o[1] = "s" /\ o[2] = "m" -> [g EXCEPT !.s[o[4]] = <<>>, !.s[o[3]] = v]
            [] o[1] = "s" -> [g EXCEPT !.s[o[3]] = v]
            [] OTHER -> [g EXCEPT !.y[o[3]] = v]

Blank == <<"*", -1>>           \* a syllable of no sounds
Fresh(P) == [s |-> [k \in P |-> <<>>], y |-> [k \in P |-> Blank]]
=============================================================================
