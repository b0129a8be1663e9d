------------------------------- MODULE CliRun -------------------------------
(***************************************************************************)
(* The program as it runs: options first, then notations, then words one   *)
(* after the other, from the arguments or from standard input, where lines *)
(* may arrive late.  Checked: whatever the order and the arrivals, the     *)
(* program ends with exactly what Cli says, and nothing is written before  *)
(* all options are known.                                                  *)
(***************************************************************************)
EXTENDS Cli

CONSTANTS Alphabet, MaxArgs, Inputs

(* -t -r -j -g -n -dx -h - w and the empty word; a few inputs *)
TheAlphabet == { <<45, 116>>, <<45, 114>>, <<45, 106>>, <<45, 103>>, <<45, 110>>,
                 <<45, 100, 120>>, <<45, 104>>, <<45>>, <<119>>, <<>> }
TheInputs == { <<>>, <<97, 10>>, <<97, 10, 10, 98>>, <<255, 10, 97>> }

VARIABLES args, stdin,          \* the call
          pc, i,                \* where the program is
          brk, struct, outs, dict,
          status, items,
          got                   \* bytes of standard input so far
vars == <<args, stdin, pc, i, brk, struct, outs, dict, status, items, got>>

Init ==
  /\ args \in UNION { [1..n -> Alphabet] : n \in 0..MaxArgs }
  /\ stdin \in Inputs
  /\ pc = "options" /\ i = 1
  /\ brk = TRUE /\ struct = 0 /\ outs = <<>> /\ dict = <<>>
  /\ status = -1 /\ items = <<>> /\ got = 0

Const == UNCHANGED <<args, stdin>>

Scan ==
  /\ pc = "options" /\ i <= Len(args)
  /\ i' = i + 1
  /\ LET a == args[i] IN
     IF ~IsOption(a) THEN UNCHANGED <<pc, brk, struct, dict, status>>
     ELSE CASE Kind(a) \in Stopping ->
                 pc' = "done" /\ status' = 1 /\ UNCHANGED <<brk, struct, dict>>
            [] Kind(a) = "nobreak" ->
                 brk' = FALSE /\ UNCHANGED <<pc, struct, dict, status>>
            [] Kind(a) = "json" ->
                 struct' = (IF struct = 2 THEN 2 ELSE 1)
                 /\ UNCHANGED <<pc, brk, dict, status>>
            [] Kind(a) = "group" ->
                 struct' = 2 /\ UNCHANGED <<pc, brk, dict, status>>
            [] Kind(a) = "dict" ->
                 dict' = SubSeq(a, 3, Len(a)) /\ UNCHANGED <<pc, brk, struct, status>>
            [] OTHER -> UNCHANGED <<pc, brk, struct, dict, status>>
  /\ UNCHANGED <<outs, items, got>> /\ Const

Scanned ==
  /\ pc = "options" /\ i > Len(args)
  /\ pc' = "notations" /\ i' = 1
  /\ UNCHANGED <<brk, struct, outs, dict, status, items, got>> /\ Const

Notate ==
  /\ pc = "notations" /\ i <= Len(args)
  /\ i' = i + 1
  /\ outs' = IF IsOption(args[i]) /\ Kind(args[i]) = "notation"
               THEN Append(outs, Notation[args[i][2]]) ELSE outs
  /\ UNCHANGED <<pc, brk, struct, dict, status, items, got>> /\ Const

Notated ==
  /\ pc = "notations" /\ i > Len(args)
  /\ outs' = IF outs = <<>> THEN Default ELSE outs
  /\ pc' = IF \E k \in DOMAIN args : ~IsOption(args[k]) THEN "args" ELSE "stdin"
  /\ i' = 1
  /\ UNCHANGED <<brk, struct, dict, status, items, got>> /\ Const

Write(w) == items' = items \o <<Heading(w)>>
                     \o (IF Valid(w) THEN Blocks(w, outs, struct, 1) ELSE <<>>)

FromArg ==
  /\ pc = "args" /\ i <= Len(args)
  /\ i' = i + 1
  /\ IF IsOption(args[i]) THEN items' = items ELSE Write(args[i])
  /\ UNCHANGED <<pc, brk, struct, outs, dict, status, got>> /\ Const

Arrive ==                               \* any number of bytes arrives
  /\ \E n \in (got + 1)..Len(stdin) : got' = n
  /\ UNCHANGED <<pc, i, brk, struct, outs, dict, status, items>> /\ Const

NextNL == {k \in i..got : stdin[k] = NL}
FromLine ==
  /\ pc = "stdin" /\ NextNL # {}
  /\ LET k == CHOOSE k \in NextNL : \A m \in NextNL : k <= m
     IN Write(SubSeq(stdin, i, k - 1)) /\ i' = k + 1
  /\ UNCHANGED <<pc, brk, struct, outs, dict, status, got>> /\ Const

LastLine ==                             \* end of input seen
  /\ pc = "stdin" /\ got = Len(stdin) /\ NextNL = {}
  /\ IF i <= Len(stdin) THEN Write(SubSeq(stdin, i, Len(stdin))) ELSE items' = items
  /\ pc' = "done" /\ status' = 0
  /\ UNCHANGED <<i, brk, struct, outs, dict, got>> /\ Const

ArgsDone ==
  /\ pc = "args" /\ i > Len(args)
  /\ pc' = "done" /\ status' = 0
  /\ UNCHANGED <<i, brk, struct, outs, dict, items, got>> /\ Const

Step == Scan \/ Scanned \/ Notate \/ Notated \/ FromArg \/ FromLine \/ LastLine
        \/ ArgsDone
Next == Step \/ Arrive
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Arrive)

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Right == pc = "done" => /\ status = Status(args)
                        /\ items = Items(args, stdin)
                        /\ status = 0 => dict = DictArg(args)
Ordered == IsPrefix(items, Items(args, stdin))
NotEarly == pc \in {"options", "notations"} => items = <<>>
(* the same words give the same output from either source *)
Sources == pc = "done" /\ status = 0 =>
             LET ws == Words(args, stdin)
                 opts == Options(args)
             IN items = AllItems(opts, ws, 1)
Ends == <>(pc = "done")
=============================================================================
