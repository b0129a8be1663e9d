-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* Loading dictionaries.  A file has a part with the words and, after it,  *)
(* a part with their data; it may be missing or cut short anywhere.        *)
(* Loading reads one part after the other.  TLC shows that through any     *)
(* history of loads the loaded dictionary is whole, and is that of the     *)
(* last load, or none.                                                     *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Files, WordsSize, Size        \* sizes in bytes

None == "none"
VARIABLES words, data,          \* files the loaded parts come from
          pc, file, cut,        \* load in progress
          res                   \* last result, with the file

vars == <<words, data, pc, file, cut, res>>

Init == /\ words = None /\ data = None /\ pc = "idle"
        /\ file = None /\ cut = 0 /\ res = <<FALSE, None>>

(* cut = -1: no such file *)
Begin(f, k) == /\ pc = "idle"
               /\ file' = f /\ cut' = k /\ pc' = "opened"
               /\ words' = None /\ data' = None         \* forget the old one first
               /\ UNCHANGED res

Missing == /\ pc = "opened" /\ cut < 0
           /\ pc' = "idle" /\ res' = <<FALSE, file>>
           /\ UNCHANGED <<words, data, file, cut>>

ReadWords == /\ pc = "opened" /\ cut >= 0
             /\ words' = IF cut >= WordsSize THEN file ELSE None
             /\ pc' = "words"
             /\ UNCHANGED <<data, file, cut, res>>

ReadData == /\ pc = "words"
            /\ data' = IF cut >= Size THEN file ELSE None
            /\ pc' = "data"
            /\ UNCHANGED <<words, file, cut, res>>

Finish == /\ pc = "data"
          /\ IF words = None \/ data = None
               THEN words' = None /\ data' = None /\ res' = <<FALSE, file>>
               ELSE UNCHANGED <<words, data>> /\ res' = <<TRUE, file>>
          /\ pc' = "idle"
          /\ UNCHANGED <<file, cut>>

Next == \/ \E f \in Files, k \in -1..Size : Begin(f, k)
        \/ Missing \/ ReadWords \/ ReadData \/ Finish

Spec == Init /\ [][Next]_vars /\ WF_vars(Missing \/ ReadWords \/ ReadData \/ Finish)

(* a reading looks words up, then takes their data *)
Whole == pc = "idle" => words = data
LastLoad == pc = "idle" => words = (IF res[1] THEN res[2] ELSE None)
AllOrNothing == pc = "idle" => (res[1] => cut >= Size)
Ends == (pc # "idle") ~> (pc = "idle")
=============================================================================
