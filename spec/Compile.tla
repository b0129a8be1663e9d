------------------------------ MODULE Compile ------------------------------
(***************************************************************************)
(* Compiling word lists into one file, again and again, while things go    *)
(* wrong: lists may be malformed or become unreadable, writing may fail    *)
(* after any byte, the compiler may be killed at any moment.  Bytes reach  *)
(* the file in pieces, some of them only when it is closed.                *)
(*                                                                         *)
(* TLC shows that whoever loads the file at any moment gets a whole        *)
(* dictionary or none, and that the status says what happened.             *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Lists,        \* names of lists
          LinesOf,      \* number of lines of each
          BadLine,      \* number of a malformed line of each; 0: none
          SizeOf        \* size of the dictionary of each in bytes

None == "none"
Idle == {"idle"}

VARIABLES disk,         \* [of, n]: the first n bytes of the dictionary of a list
          prev,         \* what could be loaded before the compiler started
          pc, list,     \* what the compiler is doing, and with which list
          read,         \* lines read
          out,          \* bytes written, some of them not yet on the disk
          status,       \* of the last run: "ok", "failed", "killed"
          fault         \* did anything go wrong in this run?

vars == <<disk, prev, pc, list, read, out, status, fault>>

Size(l) == IF l = None THEN 1 ELSE SizeOf[l]
(* what loading the file gives *)
Loaded == IF disk.of # None /\ disk.n = Size(disk.of) THEN disk.of ELSE None

Init == /\ disk = [of |-> None, n |-> 0] /\ prev = None /\ pc = "idle" /\ list = None
        /\ read = 0 /\ out = 0 /\ status = "ok" /\ fault = FALSE

Start(l) == /\ pc = "idle"
            /\ list' = l /\ read' = 0 /\ out' = 0 /\ fault' = FALSE
            /\ prev' = Loaded /\ pc' = "start"
            /\ UNCHANGED <<disk, status>>

(* no such list, no such place for the dictionary: nothing is touched *)
CannotOpen == /\ pc = "start"
              /\ fault' = TRUE /\ pc' = "idle" /\ status' = "failed"
              /\ UNCHANGED <<disk, prev, list, read, out>>
Open == /\ pc = "start"
        /\ disk' = [of |-> list, n |-> 0] /\ pc' = "read"
        /\ UNCHANGED <<prev, list, read, out, status, fault>>

ReadLine == /\ pc = "read" /\ read < LinesOf[list]
            /\ read' = read + 1
            /\ IF BadLine[list] = read + 1
                 THEN fault' = TRUE /\ pc' = "idle" /\ status' = "failed"
                 ELSE UNCHANGED <<fault, pc, status>>
            /\ UNCHANGED <<disk, prev, list, out>>
Unreadable == /\ pc = "read"
              /\ fault' = TRUE /\ pc' = "idle" /\ status' = "failed"
              /\ UNCHANGED <<disk, prev, list, read, out>>
EndOfList == /\ pc = "read" /\ read = LinesOf[list]
             /\ pc' = "write"
             /\ UNCHANGED <<disk, prev, list, read, out, status, fault>>

(* bytes are handed over; some more of them reach the disk *)
Write == /\ pc = "write" /\ out < Size(list)
         /\ \E k \in (out + 1)..Size(list) :
              /\ out' = k
              /\ \E n \in disk.n..k : disk' = [disk EXCEPT !.n = n]
         /\ UNCHANGED <<prev, pc, list, read, status, fault>>
WriteFails == /\ pc = "write" /\ disk.n < Size(list)
              /\ fault' = TRUE /\ pc' = "idle" /\ status' = "failed"
              /\ \E n \in disk.n..(Size(list) - 1) : disk' = [disk EXCEPT !.n = n]
              /\ UNCHANGED <<prev, list, read, out>>
Close == /\ pc = "write" /\ out = Size(list)
         /\ disk' = [disk EXCEPT !.n = out]
         /\ pc' = "idle" /\ status' = "ok"
         /\ UNCHANGED <<prev, list, read, out, fault>>

Kill == /\ pc \notin Idle
        /\ fault' = TRUE /\ pc' = "idle" /\ status' = "killed"
        /\ UNCHANGED <<disk, prev, list, read, out>>

Step == \/ CannotOpen \/ Open \/ ReadLine \/ Unreadable \/ EndOfList
        \/ Write \/ WriteFails \/ Close
Next == (\E l \in Lists : Start(l)) \/ Step \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* a loaded dictionary is that of a whole, well-formed list *)
NeverPartial == Loaded # None => BadLine[Loaded] = 0
(* ... of the list compiled now, or of an earlier one that is still there *)
NothingElse == Loaded \in {None, prev, list}
Honest == pc = "idle" /\ list # None => (status = "ok" <=> ~fault)
Success == pc = "idle" /\ list # None /\ status = "ok" => Loaded = list
Ends == (pc # "idle") ~> (pc = "idle")

(* lists for the model checker: two good ones and a malformed one *)
TheLines == [a |-> 2, b |-> 1, c |-> 3]
TheBad   == [a |-> 0, b |-> 0, c |-> 2]
TheSizes == [a |-> 4, b |-> 3, c |-> 5]
=============================================================================
