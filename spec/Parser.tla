------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* Reading of a whole text: from characters to the pronunciation graph.    *)
(*                                                                         *)
(* A text is cut into tokens (maximal runs of Thai letters and periods,    *)
(* also cut at word breaks) and stretches of other characters.  Reading    *)
(* moves through the text from position 0 to the end; a reading state is   *)
(* a pair <<position, linked>>.  A move                                    *)
(*   [to, lk, edges]                                                       *)
(* leads to the state <<to, lk>> and contributes edges                     *)
(* <<from, to, seg, tn>> to the pronunciation graph.  seg and tn are as in *)
(* Reading, or, for a literal, "L" followed by the code units joined by    *)
(* "." and no tone.                                                        *)
(*                                                                         *)
(* The pronunciation graph consists of the edges contributed by the moves  *)
(* that lie on some run from the first to the last position.               *)
(***************************************************************************)
EXTENDS Reading, TLC

(* ------------------------- tokens and literals ------------------------- *)
RECURSIVE SkipWhileTok(_, _, _)
SkipWhileTok(t, p, lim) ==
  IF p < lim /\ IsTokenChar(At(t, p)) THEN SkipWhileTok(t, p + 1, lim) ELSE p

RECURSIVE SkipNonTok(_, _)
SkipNonTok(t, p) ==
  IF p < Len(t) /\ ~IsTokenChar(At(t, p)) THEN SkipNonTok(t, p + 1) ELSE p

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

(* End of the token that contains position p *)
TokenEnd(t, brk, p) ==
  LET later == {b \in brk : b > p}
      lim == IF later = {} THEN Len(t) ELSE Min(later \cup {Len(t)})
  IN SkipWhileTok(t, p, lim)

RECURSIVE UnitsStr(_, _, _)
UnitsStr(t, p, q) ==
  IF p >= q THEN ""
  ELSE ToString(At(t, p)) \o (IF p + 1 < q THEN "." ELSE "")
       \o UnitsStr(t, p + 1, q)
Literal(t, p, q) == "L" \o UnitsStr(t, p, q)

(* A period which follows something other than a space or a period is      *)
(* swallowed by the reading before it.                                     *)
Swallowed(t, p) ==
  /\ p > 0 /\ p < Len(t)
  /\ At(t, p) = DOT
  /\ At(t, p - 1) # SPACE /\ At(t, p - 1) # DOT
Land(t, p) == IF Swallowed(t, p) THEN p + 1 ELSE p

(* ---------------------- the exception dictionary ----------------------- *)
(* An entry is [k, r]: key (sequence of code units) and readings.  A       *)
(* reading is a sequence of <<segments, tone, end>>; a negative end marks  *)
(* a half syllable that belongs to the syllable after it.                  *)
RECURSIVE ReadingEdges(_, _, _, _, _)
ReadingEdges(r, from, base, seg, tn) ==
  IF r = <<>> THEN {}
  ELSE LET h == Head(r)
       IN IF h[3] < 0
            THEN ReadingEdges(Tail(r), from, base, seg \o h[1] \o "+",
                              tn \o h[2])
            ELSE {<<from, base + h[3], seg \o h[1], tn \o h[2]>>}
                 \cup ReadingEdges(Tail(r), base + h[3], base, "", "")

KeyAt(t, k, p) ==
  /\ p + Len(k) <= Len(t)
  /\ \A i \in 1..Len(k) : t[p + i] = k[i]

(* byFirst maps a first letter to the entries that begin with it *)
Exceptions(t, p, stop, byFirst) ==
  IF At(t, p) \notin DOMAIN byFirst THEN {}
  ELSE { x \in byFirst[At(t, p)] :
           /\ KeyAt(t, x.k, p)
           /\ LET e == p + Len(x.k)
              IN e = stop \/ (e < stop /\ IsSylStart(At(t, e))) }

(* Readings end at the end of the key by the well-formedness of the        *)
(* dictionary; a swallowed period moves that end.                          *)
LandEdges(t, edges, e) ==
  { <<x[1], IF x[2] = e THEN Land(t, e) ELSE x[2], x[3], x[4]>>
    : x \in edges }

ExceptionMove(t, p, x) ==
  LET e == p + Len(x.k)
  IN [to |-> Land(t, e), lk |-> FALSE,
      edges |-> LandEdges(t, UNION { ReadingEdges(r, p, p, "", "") : r \in x.r }, e)]

(* --------------------------- abbreviations ----------------------------- *)
LetterSeg(c)  == Sound(c) \o "_C_"
LetterTone(c) == IF Class(c) = "H" THEN "4" ELSE "0"

RECURSIVE ConsRun(_, _, _)
ConsRun(t, p, stop) ==
  IF p < stop /\ IsCons(At(t, p)) THEN ConsRun(t, p + 1, stop) ELSE p

MayAbbr(t, p) == p = 0 \/ At(t, p - 1) = SPACE \/ At(t, p - 1) = DOT

(* End of the abbreviation at p, or p if there is none *)
AbbrEnd(t, p, stop) ==
  LET q == ConsRun(t, p, stop)
      n == q - p
  IN IF ~MayAbbr(t, p) \/ n > 4 THEN p
     ELSE IF q < stop THEN (IF At(t, q) = DOT THEN q + 1 ELSE p)
     ELSE IF n = 1 THEN q ELSE p

AbbrMove(t, p, e) ==
  LET last == At(t, e - 1)
      q == IF last = DOT THEN e - 1 ELSE e          \* end of the letters
  IN [to |-> Land(t, e), lk |-> FALSE,
      edges |->
        IF p = q THEN {<<p, e, Literal(t, p, e), "">>}
        ELSE LandEdges(t,
               { <<i, IF i = q - 1 THEN e ELSE i + 1, LetterSeg(At(t, i)),
                    LetterTone(At(t, i))>>
                 : i \in p..(q - 1) }, e)]

(* ------------------------------- moves --------------------------------- *)
ArcMove(t, p, a) ==
  [to |-> Land(t, a.to), lk |-> a.lk,
   edges |-> {<<p, Land(t, a.to), a.seg, a.tn>>}]

(* All moves from the state <<p, lk>>, p < Len(t) *)
Moves(t, brk, byFirst, p, lk) ==
  IF ~IsTokenChar(At(t, p))
    THEN LET q == SkipNonTok(t, p)
         IN {[to |-> Land(t, q), lk |-> FALSE,
              edges |-> {<<p, Land(t, q), Literal(t, p, q), "">>}]}
  ELSE LET stop == TokenEnd(t, brk, p)
           exc == Exceptions(t, p, stop, byFirst)
       IN IF exc # {} THEN { ExceptionMove(t, p, x) : x \in exc }
          ELSE LET ae == AbbrEnd(t, p, stop)
               IN IF ae # p THEN {AbbrMove(t, p, ae)}
                  ELSE { ArcMove(t, p, a) : a \in RuleArcs(t, p, stop, lk) }

(* ------------------------- big-step semantics -------------------------- *)
(* legs: <<from, fromlk, to, tolk, edges>> of all moves from reachable     *)
(* states, in ascending order of position                                  *)
RECURSIVE Legs(_, _, _, _, _)
Legs(t, brk, byFirst, p, reach) ==
  IF p >= Len(t) THEN <<>>
  ELSE LET here == {s \in reach : s[1] = p}
           new == { <<s, <<m.to, m.lk>>, m.edges>> : <<s, m>> \in
                      UNION { {s} \X Moves(t, brk, byFirst, p, s[2])
                              : s \in here } }
       IN IF here = {} THEN Legs(t, brk, byFirst, p + 1, reach)
          ELSE <<new>> \o Legs(t, brk, byFirst, p + 1,
                               (reach \ here) \cup {l[2] : l \in new})

(* keep the legs from which the end can be reached (legs taken backwards) *)
RECURSIVE Prune(_, _, _, _)
Prune(legs, i, good, edges) ==
  IF i = 0 THEN edges
  ELSE LET ok == {l \in legs[i] : l[2] \in good}
       IN Prune(legs, i - 1, good \cup {l[1] : l \in ok},
                edges \cup UNION {l[3] : l \in ok})

Final(n) == {<<n, FALSE>>, <<n, TRUE>>}

ReadText(t, brk, byFirst) ==
  LET legs == Legs(t, brk, byFirst, 0, {<<0, FALSE>>})
  IN Prune(legs, Len(legs), Final(Len(t)), {})
=============================================================================
