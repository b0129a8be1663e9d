-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line.  Arguments, standard input and words are sequences of *)
(* bytes.  What a call has to do is a sequence of items: the heading of a  *)
(* word, and a block of a word in a notation, structure (0 plain, 1 JSON,  *)
(* 2 grouped JSON), segmentation mode and dictionary.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC

Dash == 45
NL == 10
OptVersion == <<45, 45, 118, 101, 114, 115, 105, 111, 110>>
OptHelp == <<45, 45, 104, 101, 108, 112>>
Notation == 116 :> "t" @@ 114 :> "r" @@ 112 :> "p" @@ 119 :> "w" @@ 115 :> "s"

IsOption(a) == Len(a) > 0 /\ a[1] = Dash
Letter(a) == IF Len(a) = 2 THEN a[2] ELSE 0

(* Kinds of options *)
Kind(a) ==
  CASE a \in {OptVersion, <<45, 86>>}             -> "version"
    [] a \in {OptHelp, <<45, 104>>}               -> "help"
    [] Len(a) > 2 /\ a[2] = 100                   -> "dict"
    [] Letter(a) = 110                            -> "nobreak"
    [] Letter(a) = 106                            -> "json"
    [] Letter(a) = 103                            -> "group"
    [] Letter(a) \in DOMAIN Notation              -> "notation"
    [] OTHER                                      -> "wrong"
Stopping == {"version", "help", "wrong"}

Options(args) == SelectSeq(args, IsOption)
HasKind(args, k) == \E j \in DOMAIN args : IsOption(args[j]) /\ Kind(args[j]) = k
Stops(args) == \E k \in Stopping : HasKind(args, k)

Structure(args) == IF HasKind(args, "group") THEN 2
                   ELSE IF HasKind(args, "json") THEN 1 ELSE 0
Default == <<"t", "r", "p">>
Asked(args) ==
  LET IsNotation(a) == IsOption(a) /\ Kind(a) = "notation"
      ns == SelectSeq(args, IsNotation)
  IN [j \in DOMAIN ns |-> Notation[ns[j][2]]]
Notations(args) == IF Asked(args) = <<>> THEN Default ELSE Asked(args)
DictArg(args) ==                        \* <<>>: the default one
  LET IsDict(a) == IsOption(a) /\ Kind(a) = "dict"
      ds == SelectSeq(args, IsDict)
  IN IF ds = <<>> THEN <<>>
     ELSE SubSeq(ds[Len(ds)], 3, Len(ds[Len(ds)]))

(* Lines of a text; the last one need not be ended *)
Lines(s) ==
  LET ends == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k] = NL)
      n == Len(ends)
      from(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
      whole == [k \in 1..n |-> SubSeq(s, from(k), ends[k] - 1)]
  IN IF from(n + 1) > Len(s) THEN whole
     ELSE Append(whole, SubSeq(s, from(n + 1), Len(s)))

WordArgs(args) == LET IsWord(a) == ~IsOption(a) IN SelectSeq(args, IsWord)
Words(args, stdin) ==
  IF WordArgs(args) # <<>> THEN WordArgs(args) ELSE Lines(stdin)

Heading(w) == [item |-> "head", w |-> w]
Block(w, n, s) == [item |-> "block", w |-> w, n |-> n, s |-> s]

RECURSIVE Blocks(_, _, _, _)
Blocks(w, ns, s, k) ==
  IF k > Len(ns) THEN <<>> ELSE <<Block(w, ns[k], s)>> \o Blocks(w, ns, s, k + 1)

(* Valid(w): w is valid text, that is well-formed UTF-8 *)
Cont(s, k) == k <= Len(s) /\ s[k] \in 128..191
Width(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3
              [] b \in 240..244 -> 4 [] OTHER -> 0
FirstOK(s, k) ==                \* a first byte, with what has to follow
  LET b == s[k]
  IN /\ Width(b) > 0
     /\ \A j \in 1..(Width(b) - 1) : Cont(s, k + j)
     /\ b = 224 => s[k + 1] >= 160
     /\ b = 237 => s[k + 1] < 160
     /\ b = 240 => s[k + 1] >= 144
     /\ b = 244 => s[k + 1] < 144
FollowOK(s, k) ==               \* a following byte belongs to a first one
  \E j \in 1..3 : /\ k - j >= 1
                  /\ Width(s[k - j]) > j
                  /\ \A h \in 1..(j - 1) : Cont(s, k - h)
Valid(s) == \A k \in DOMAIN s : IF Cont(s, k) THEN FollowOK(s, k) ELSE FirstOK(s, k)

WordItems(args, w) ==
  <<Heading(w)>> \o (IF Valid(w) THEN Blocks(w, Notations(args), Structure(args), 1)
                  ELSE <<>>)
RECURSIVE AllItems(_, _, _)
AllItems(args, ws, k) ==
  IF k > Len(ws) THEN <<>> ELSE WordItems(args, ws[k]) \o AllItems(args, ws, k + 1)

(* What a call has to write and return *)
Items(args, stdin) == IF Stops(args) THEN <<>>
                      ELSE AllItems(args, Words(args, stdin), 1)
Status(args) == IF Stops(args) THEN 1 ELSE 0
Bad(args, stdin) ==                     \* words to be reported
  IF Stops(args) THEN {}
  ELSE LET ws == Words(args, stdin) IN {ws[k] : k \in {j \in DOMAIN ws : ~Valid(ws[j])}}
=============================================================================
