---------------------------- MODULE StringMachine ---------------------------
(***************************************************************************)
(* Histories of syllables and syllable strings.  Checked: an operation     *)
(* touches no other place, appending and shifting agree with each other,   *)
(* shifting keeps labels and can be done in parts.                         *)
(***************************************************************************)
EXTENDS Strings, TLC

CONSTANTS Letters, Ends, Places, MaxLen, MaxOps

VARIABLES g, last

Ops ==
  {<<"s", "n", x>> : x \in Places}
  \cup {<<"s", op, x, y>> : op \in {"k", "S", "y", "m", "=", "+", "a"},
                            x \in Places, y \in Places}
  \cup {<<"s", "d", x, <<<<l, e>>>>>> : x \in Places, l \in Letters, e \in Ends}
  \cup {<<"s", "h", x, 1>> : x \in Places}
  \cup {<<"s", "e", x, 1, e>> : x \in Places, e \in Ends}
  \cup {<<"y", "k", x, l, e>> : x \in Places, l \in Letters, e \in Ends}
  \cup {<<"y", op, x, y>> : op \in {"y", "="}, x \in Places, y \in Places}
  \cup {<<"y", "p", x, e>> : x \in Places, e \in Ends}
  \cup {<<"y", "g", x, y, k>> : x \in Places, y \in Places, k \in {1, 2}}

Init == g = Fresh(Places) /\ last = <<>>
Next == \E o \in Ops :
  /\ o[2] = "m" => o[3] # o[4]
  /\ Possible(g, o)
  /\ \A k \in Places : Len(After(g, o).s[k]) <= MaxLen
  /\ g' = After(g, o) /\ last' = o
Spec == Init /\ [][Next]_<<g, last>>

Shifting == \A x, y \in Places :
  /\ Shift(g.s[x] \o g.s[y], 2) = Shift(g.s[x], 2) \o Shift(g.s[y], 2)
  /\ Labels(Shift(g.s[x], 2)) = Labels(g.s[x])
  /\ Shift(Shift(g.s[x], 1), 2) = Shift(g.s[x], 3)
  /\ Shift(g.s[x], 0) = g.s[x]
  /\ g.s[x] # <<>> => EndOf(Shift(g.s[x], 2)) = ShiftPos(EndOf(g.s[x]), 2)
  /\ g.s[y] # <<>> => EndOf(g.s[x] \o g.s[y]) = EndOf(g.s[y])

(* an operation leaves the other places alone *)
Local == [][
  \A k \in Places :
    /\ ~(last'[1] = "s" /\ (last'[3] = k \/ (last'[2] = "m" /\ last'[4] = k)))
         => g'.s[k] = g.s[k]
    /\ ~(last'[1] = "y" /\ last'[3] = k) => g'.y[k] = g.y[k]]_<<g, last>>
Bounded == TLCGet("level") <= MaxOps
View == g
TheEnds == {1, -102}
=============================================================================
