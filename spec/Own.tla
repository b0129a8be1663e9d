-------------------------------- MODULE Own ---------------------------------
(***************************************************************************)
(* What dictionaries hold.  Loading a dictionary opens a file, takes       *)
(* memory for its words and for its data, and closes the file; looking     *)
(* words up takes a cursor.  A file may be missing or cut short, and a     *)
(* lookup may be given up.  held counts how often each thing is held.      *)
(* TLC shows that whatever is done in whatever order, a dictionary at rest *)
(* holds words and data exactly if it is loaded, nothing is given back     *)
(* that is not held, and nothing is held of discarded ones.                *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Dicts

Kinds == {"file", "words", "data", "cursor"}
Cuts == {"missing", "words", "data", "none"}    \* the part that is cut short

VARIABLES live, loaded,         \* dictionaries that exist, that are loaded
          held,                 \* held[d][k]: how many of kind k
          pc, cut               \* operation in progress on each dictionary
vars == <<live, loaded, held, pc, cut>>

Init == /\ live = {} /\ loaded = {}
        /\ held = [d \in Dicts |-> [k \in Kinds |-> 0]]
        /\ pc = [d \in Dicts |-> "idle"] /\ cut = [d \in Dicts |-> "none"]

Take(h, d, k) == [h EXCEPT ![d][k] = @ + 1]
Give(h, d, k) == [h EXCEPT ![d][k] = @ - 1]
GiveHeld(h, d, k) == IF h[d][k] > 0 THEN Give(h, d, k) ELSE h
Dropped(h, d) == GiveHeld(GiveHeld(h, d, "words"), d, "data")
At(d, p) == d \in live /\ pc[d] = p
Go(d, p) == pc' = [pc EXCEPT ![d] = p]

Make(d) == /\ d \notin live /\ live' = live \cup {d}
           /\ UNCHANGED <<loaded, held, pc, cut>>
Discard(d) == /\ At(d, "idle") /\ live' = live \ {d} /\ loaded' = loaded \ {d}
              /\ held' = Dropped(held, d)
              /\ UNCHANGED <<pc, cut>>
Close(d) == /\ At(d, "idle") /\ loaded' = loaded \ {d}
            /\ held' = Dropped(held, d)
            /\ UNCHANGED <<live, pc, cut>>

Begin(d, c) == /\ At(d, "idle") /\ Go(d, "open")
               /\ loaded' = loaded \ {d} /\ held' = Dropped(held, d)
               /\ cut' = [cut EXCEPT ![d] = c]
               /\ UNCHANGED live
Open(d) == /\ At(d, "open")
           /\ IF cut[d] = "missing"
                THEN Go(d, "idle") /\ held' = held
                ELSE Go(d, "words") /\ held' = Take(held, d, "file")
           /\ UNCHANGED <<live, loaded, cut>>
Words(d) == /\ At(d, "words") /\ Go(d, "data")
            /\ held' = IF cut[d] = "words" THEN held ELSE Take(held, d, "words")
            /\ UNCHANGED <<live, loaded, cut>>
Data(d) == /\ At(d, "data") /\ Go(d, "close")
           /\ held' = IF cut[d] = "none" THEN Take(held, d, "data") ELSE held
           /\ UNCHANGED <<live, loaded, cut>>
CloseFile(d) == /\ At(d, "close") /\ Go(d, "finish")
                /\ held' = Give(held, d, "file")
                /\ UNCHANGED <<live, loaded, cut>>
Finish(d) == /\ At(d, "finish") /\ Go(d, "idle")
             /\ IF held[d]["words"] > 0 /\ held[d]["data"] > 0
                  THEN loaded' = loaded \cup {d} /\ held' = held
                  ELSE loaded' = loaded /\ held' = Dropped(held, d)
             /\ UNCHANGED <<live, cut>>

Look(d) == /\ At(d, "idle") /\ Go(d, "look")
           /\ held' = IF d \in loaded THEN Take(held, d, "cursor") ELSE held
           /\ UNCHANGED <<live, loaded, cut>>
GiveUp(d) == /\ At(d, "look") /\ Go(d, "idle")          \* at any time
             /\ held' = GiveHeld(held, d, "cursor")
             /\ UNCHANGED <<live, loaded, cut>>

Step(d) == \/ Open(d) \/ Words(d) \/ Data(d) \/ CloseFile(d) \/ Finish(d) \/ GiveUp(d)
Next == \E d \in Dicts : \/ Make(d) \/ Discard(d) \/ Close(d) \/ Look(d) \/ Step(d)
                         \/ \E c \in Cuts : Begin(d, c)
Spec == Init /\ [][Next]_vars /\ \A d \in Dicts : WF_vars(Step(d))

Wanted(d, k) == IF d \in loaded /\ k \in {"words", "data"} THEN 1 ELSE 0
AtRest == \A d \in Dicts : pc[d] = "idle" => \A k \in Kinds : held[d][k] = Wanted(d, k)
Sane == \A d \in Dicts : \A k \in Kinds : held[d][k] \in 0..1
Gone == \A d \in Dicts \ live : \A k \in Kinds : held[d][k] = 0
Rests == \A d \in Dicts : (pc[d] # "idle") ~> (pc[d] = "idle")
=============================================================================
