-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Reading as a machine.  Partial readings wait in a pool; one of them is  *)
(* taken up, extended by every move that the text allows, and the results  *)
(* go back to the pool, where partial readings of the same state are       *)
(* merged.  The machine does not say which partial reading is taken up     *)
(* next ("any"), or says that it is one of those least far ("left").       *)
(*                                                                         *)
(* Checked: whatever the order, the machine stops, and stops with the      *)
(* pieces that ReadText gives; taking up the least far first does so in at *)
(* most two steps per position.                                            *)
(***************************************************************************)
EXTENDS Parser

CONSTANTS Alphabet,      \* characters of the texts
          MaxLen,        \* length of the texts
          Order,         \* "any" or "left"
          Breaks,        \* set of sets of word breaks to consider
          Entries        \* exception dictionary: set of [k, r]

Texts == UNION { [1..n -> Alphabet] : n \in 1..MaxLen }

ByFirst == [c \in {x.k[1] : x \in Entries} |-> {x \in Entries : x.k[1] = c}]

(* A dictionary to check the machine with *)
SomeEntries ==
  { [k |-> <<KO_KAI, NO_NU>>,
     r |-> { << <<"k_on", "0", 2>> >>,
             << <<"k_a_", "1", -2>>, <<"n_C_", "0", 2>> >> }],
    [k |-> <<KO_KAI, NO_NU, SARA_AA>>,
     r |-> { << <<"k_A_", "0", 1>>, <<"n_A_", "0", 3>> >> }] }

VARIABLES
  t,         \* the text
  brk,       \* its word breaks
  pool,      \* pending partial readings: [pos, lk, dag]
  out,       \* pieces of the complete readings
  pops       \* number of partial readings taken up

vars == <<t, brk, pool, out, pops>>

Add(p, s) ==
  LET same == {x \in p : x.pos = s.pos /\ x.lk = s.lk}
  IN (p \ same) \cup
     {[pos |-> s.pos, lk |-> s.lk,
       dag |-> s.dag \cup UNION {x.dag : x \in same}]}

RECURSIVE AddAll(_, _)
AddAll(p, S) ==
  IF S = {} THEN p
  ELSE LET s == CHOOSE x \in S : TRUE IN AddAll(Add(p, s), S \ {s})

Init ==
  /\ t \in Texts
  /\ brk \in Breaks
  /\ pool = {[pos |-> 0, lk |-> FALSE, dag |-> {}]}
  /\ out = {}
  /\ pops = 0

Extended(s) ==
  { [pos |-> m.to, lk |-> m.lk, dag |-> s.dag \cup m.edges]
    : m \in Moves(t, brk, ByFirst, s.pos, s.lk) }

Take(s) ==
  /\ Order = "left" => \A x \in pool : s.pos <= x.pos
  /\ pops' = (IF Order = "left" THEN pops + 1 ELSE 0)
  /\ UNCHANGED <<t, brk>>
  /\ IF s.pos = Len(t)
       THEN pool' = pool \ {s} /\ out' = out \cup s.dag
       ELSE pool' = AddAll(pool \ {s}, Extended(s)) /\ out' = out

Next == \E s \in pool : Take(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Stops == <>(pool = {})

(* The order does not matter *)
Confluent == pool = {} => out = ReadText(t, brk, ByFirst)

(* The pieces form chains from the first to the last position *)
Nodes(E) == {e[1] : e \in E} \cup {e[2] : e \in E}
Tiled ==
  pool = {} =>
    LET n == Len(t)
    IN /\ \A e \in out : e[1] < e[2] /\ 0 <= e[1] /\ e[2] <= n
       /\ \A x \in Nodes(out) :
            /\ x # n => \E e \in out : e[1] = x
            /\ x # 0 => \E e \in out : e[2] = x
       /\ out # {} => {0, n} \subseteq Nodes(out)

(* No piece crosses a word break *)
Confined ==
  pool = {} =>
    \A e \in out : \A b \in brk :
      ~(e[1] < b /\ b < e[2] /\ IsTokenChar(At(t, e[1]))
        /\ ~Swallowed(t, b))

(* Positions of the pending readings lie in the text; states merge *)
PoolOK ==
  /\ \A s \in pool : s.pos \in 0..Len(t)
  /\ \A s, u \in pool : s.pos = u.pos /\ s.lk = u.lk => s = u

Cheap == pops <= 2 * (Len(t) + 1)
=============================================================================
