------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* Several readers, each used by a thread of its own.  Reading a text goes *)
(* step by step: the work of a reading is kept somewhere between the       *)
(* steps, and its result is that work when nothing is left to read.        *)
(*                                                                         *)
(* Kept in places of their own (Shared = FALSE), readings never depend on  *)
(* what other threads do, in whatever order steps happen.  Kept in a       *)
(* common place they would; TLC finds that if Shared is TRUE.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Threads, Texts, Files, Shared, MaxReadings

VARIABLES file,         \* dictionary of the reader of each thread; 0: none
          todo,         \* what is left to read; <<0>>: the thread is idle
          text,         \* the text being read
          work,         \* places for work
          count,        \* readings so far
          last          \* text, dictionary and result of the last reading

vars == <<file, todo, text, work, count, last>>

Idle == <<0>>
Place(t) == IF Shared THEN 0 ELSE t

Init == /\ file = [t \in Threads |-> 0] /\ todo = [t \in Threads |-> Idle]
        /\ text = [t \in Threads |-> <<>>] /\ work = [p \in Threads \cup {0} |-> <<>>]
        /\ count = [t \in Threads |-> 0]
        /\ last = [t \in Threads |-> <<>>]

Load(t, f) == /\ todo[t] = Idle /\ file[t] # f
              /\ file' = [file EXCEPT ![t] = f]
              /\ UNCHANGED <<todo, text, work, count, last>>

Begin(t, x) == /\ todo[t] = Idle /\ count[t] < MaxReadings
               /\ todo' = [todo EXCEPT ![t] = x]
               /\ text' = [text EXCEPT ![t] = x]
               /\ work' = [work EXCEPT ![Place(t)] = <<>>]
               /\ UNCHANGED <<file, count, last>>

Piece(f, c) == <<f, c>>         \* how a letter is read with a dictionary
Step(t) == /\ todo[t] # Idle /\ todo[t] # <<>>
           /\ work' = [work EXCEPT ![Place(t)] = Append(@, Piece(file[t], Head(todo[t])))]
           /\ todo' = [todo EXCEPT ![t] = Tail(@)]
           /\ UNCHANGED <<file, text, count, last>>

End(t) == /\ todo[t] = <<>>
          /\ last' = [last EXCEPT ![t] = <<text[t], file[t], work[Place(t)]>>]
          /\ todo' = [todo EXCEPT ![t] = Idle]
          /\ text' = [text EXCEPT ![t] = <<>>]
          /\ count' = [count EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<file, work>>

Next == \E t \in Threads :
          \/ \E f \in Files : Load(t, f)
          \/ \E x \in Texts : Begin(t, x)
          \/ Step(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t) \/ End(t))

(* what the text gives when nothing else happens *)
Alone(x, f) == [k \in DOMAIN x |-> Piece(f, x[k])]
Undisturbed == \A t \in Threads :
                 last[t] # <<>> => last[t][3] = Alone(last[t][1], last[t][2])
Ends == \A t \in Threads : (todo[t] # Idle) ~> (todo[t] = Idle)

TheTexts == {<<1>>, <<1, 2>>, <<2, 1, 2>>}
=============================================================================
