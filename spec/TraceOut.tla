------------------------------ MODULE TraceOut ------------------------------
(***************************************************************************)
(* Validation of recorded output: graphs and lists written in all formats. *)
(***************************************************************************)
EXTENDS Grouping, TLC, Json, IOUtils

CONSTANTS Aspect                \* "flat" or "group"

Trace == ndJsonDeserialize(IOEnv.TRACE)

Range(q) == {q[k] : k \in DOMAIN q}
CountIn(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})

(* --------------------------- one pronunciation ------------------------- *)
(* p: label numbers; text: of each label; con: content of each label       *)
IsBlank(c) == c = "B"
IsLit(c)   == SubSeq(c, 1, 1) = "L"
InitOf(c)  == IF IsBlank(c) \/ IsLit(c) THEN "*" ELSE SubSeq(c, 1, 1)
FinOf(c)   == IF IsBlank(c) \/ IsLit(c) THEN "_" ELSE SubSeq(c, 4, 4)

(* the separator stands between two syllables, unless there is a blank *)
RECURSIVE DelimFrom(_, _, _, _, _)
DelimFrom(p, k, text, con, d) ==
  IF k > Len(p) THEN ""
  ELSE LET c == con[p[k]]
           sep == IF k > 1 /\ ~IsBlank(c) /\ ~IsBlank(con[p[k - 1]]) THEN d ELSE ""
       IN sep \o (IF IsBlank(c) THEN " " ELSE text[p[k]])
          \o DelimFrom(p, k + 1, text, con, d)

(* a hyphen before a vowel, and before ng after a vowel *)
RECURSIVE RomanFrom(_, _, _, _)
RomanFrom(p, k, text, con) ==
  IF k > Len(p) THEN ""
  ELSE LET c == con[p[k]]
           prev == IF k > 1 THEN con[p[k - 1]] ELSE "B"
           hyphen == /\ ~IsBlank(prev)
                     /\ \/ InitOf(c) = "?"
                        \/ InitOf(c) = "g" /\ FinOf(prev) = "_"
       IN (IF hyphen THEN "-" ELSE "")
          \o (IF IsBlank(c) THEN " " ELSE text[p[k]])
          \o RomanFrom(p, k + 1, text, con)

Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
           "r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
           "R","S","T","U","V","W","X","Y","Z">>
Capital(s) ==
  IF s = "" THEN s
  ELSE LET c == SubSeq(s, 1, 1)
           ks == {k \in 1..26 : Lower[k] = c}
       IN IF ks = {} THEN s ELSE Upper[CHOOSE k \in ks : TRUE] \o SubSeq(s, 2, Len(s))

Texts(p, text) == [k \in DOMAIN p |-> text[p[k]]]

(* What a flat output says about one pronunciation: a line or a JSON list *)
One(r, f, nt, d, p) ==
  LET text == r.nt[nt]
      con == [k \in DOMAIN r.ls |-> r.ls[k][1]]
  IN CASE f = "d" -> DelimFrom(p, 1, text, con, d)
       [] f = "o" -> RomanFrom(p, 1, text, con)
       [] f = "O" -> Capital(RomanFrom(p, 1, text, con))
       [] f = "j" -> Texts(p, text)

(* -------------------------------- graphs ------------------------------- *)
(* edges with label numbers as strings of length one *)
EdgeSet(r) == { <<e[1], e[2], <<e[3]>>>> : e \in Range(r.e) }

(* the list ls gives every path once, in whatever order *)
EachPathOnce(ls, strs) ==
  /\ Len(ls) = Len(strs)
  /\ \A x \in Range(strs) : CountIn(ls, x) = CountIn(strs, x)

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

FlatGraph(r) ==
  LET ps == SetToSeq(Paths(EdgeSet(r)))
      str == [k \in DOMAIN ps |-> StringOf(ps[k])]
      badly == {o \in Range(r.out) :
                  /\ o[1] # "g"
                  /\ ~EachPathOnce(o[4], [k \in DOMAIN str |->
                                          One(r, o[1], o[2], o[3], str[k])])}
  IN IF badly = {} THEN "ok"
     ELSE LET o == CHOOSE x \in badly : TRUE
          IN "output " \o o[1] \o " of " \o o[2] \o ": " \o ToString(o[4])

(* lines as one text: a literal may hold a line end *)
RECURSIVE Joined(_, _)
Joined(ls, k) == IF k > Len(ls) THEN "" ELSE ls[k] \o "\n" \o Joined(ls, k + 1)

FlatList(r) ==
  LET badly == {o \in Range(r.out) :
                  LET want == [k \in DOMAIN r.st |-> One(r, o[1], o[2], o[3], r.st[k])]
                  IN IF o[1] = "j" THEN o[4] # want
                     ELSE Joined(o[4], 1) # Joined(want, 1)}
      badly1 == {<<k, j>> \in (DOMAIN r.st) \X (1..13) :
                  LET o == r.one[k][j]
                  IN o[4] # One(r, o[1], o[2], o[3], r.st[k])}
  IN CASE badly # {} -> LET o == CHOOSE x \in badly : TRUE
                        IN "list output " \o o[1] \o " of " \o o[2] \o ": " \o ToString(o[4])
       [] badly1 # {} -> LET x == CHOOSE y \in badly1 : TRUE
                         IN "output " \o ToString(r.one[x[1]][x[2]])
       [] OTHER -> "ok"

(* ------------------------------- groups -------------------------------- *)
ContentOf(r, p) == [k \in DOMAIN p |-> r.ls[p[k]][1]]
(* strings of contents instead of label numbers *)
ContentEdges(r) == { <<e[1], e[2], <<r.ls[e[3]][1]>>>> : e \in Range(r.e) }
ContentLat(r) ==
  [c \in DOMAIN r.lat |-> [g \in DOMAIN r.lat[c] |->
    [a \in DOMAIN r.lat[c][g] |-> ContentOf(r, r.lat[c][g][a])]]]

(* lists of alternatives as sets *)
AsSets(lat) == [c \in DOMAIN lat |-> [g \in DOMAIN lat[c] |-> Range(lat[c][g])]]

(* the groups as edges: those that joining gives, each ending at its node *)
GroupEdges(r) == { <<x[1], x[2], {ContentOf(r, p) : p \in Range(x[4])}>> : x \in Range(r.fd) }

(* a graph built from a list has the pieces of its strings *)
BuiltEdges(r) ==
  UNION { { <<IF k = 1 THEN 0 ELSE r.ls[s[k - 1]][2], r.ls[s[k]][2], <<r.ls[s[k]][1]>>>>
            : k \in DOMAIN s } : s \in Range(r.st) }

Group(r) ==
  IF r.k # "g" THEN "ok" ELSE
  LET E == ContentEdges(r)
      lat == ContentLat(r)
      got == AsSets(lat)
      gp == SetToSeq(GroupPaths(E))
      want == [k \in DOMAIN gp |-> ChainOf(gp[k])]
      badly == {o \in Range(r.out) :
        o[1] = "g" /\
        o[4] # [c \in DOMAIN r.lat |-> [g \in DOMAIN r.lat[c] |->
                 [a \in DOMAIN r.lat[c][g] |-> Texts(r.lat[c][g][a], r.nt[o[2]])]]]}
  IN CASE UNION {Expand(c) : c \in Range(got)} # Denotes(E) -> "other pronunciations"
       [] \E c \in DOMAIN lat : \E g \in DOMAIN lat[c] :
            Len(lat[c][g]) # Cardinality(Range(lat[c][g])) -> "repeated alternative"
       [] ~r.up -> "alternatives not sorted"
       [] Range(got) # Range(want) -> "other groups: " \o ToString(got)
       [] \E c \in Range(got) : CountIn(got, c) > CountIn(want, c) -> "repeated chain"
       [] Range(r.e) # Range(r.e2) \/ Len(r.e) # Len(r.e2) -> "graph changed"
       [] Len(r.fd) # Cardinality(GroupEdges(r)) \/ GroupEdges(r) # Parallel(JoinRuns(E))
            -> "other group edges"
       [] \E x \in Range(r.fd) : x[3] # x[2] -> "end of group"
       [] "st" \in DOMAIN r /\ BuiltEdges(r) # E -> "not built from the list"
       [] "st" \in DOMAIN r /\ Range(r.lo) # {o \in Range(r.out) : o[1] = "g"}
            -> "grouped output of the list"
       [] badly # {} -> LET o == CHOOSE x \in badly : TRUE
                        IN "grouped output of " \o o[2] \o ": " \o ToString(o[4])
       [] OTHER -> "ok"

Flat(r) == IF r.k = "g" THEN FlatGraph(r) ELSE FlatList(r)

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x
              ELSE IF Aspect = "flat" THEN Flat(r) ELSE Group(r)

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
