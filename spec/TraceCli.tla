------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Validation of recorded calls of the program.  A record has the          *)
(* arguments a, the standard input in (bytes), the number d of the default *)
(* dictionary, the status st, standard output out (hex) and standard error *)
(* err (bytes).  PATHS tells the dictionaries (0: cannot be loaded) behind *)
(* paths.  TABLES has what the library writes for the words with each      *)
(* dictionary and mode.  MSGS has the messages of --help and --version.    *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Table == ndJsonDeserialize(IOEnv.TABLES)        \* [d, n, w, v, o]
Paths == ndJsonDeserialize(IOEnv.PATHS)         \* [p, d]
Msgs == ndJsonDeserialize(IOEnv.MSGS)[1]        \* [help, version]

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexIn(_, _, _)
HexIn(s, a, b) ==
  IF a > b THEN ""
  ELSE IF a = b THEN HexDigit[(s[a] \div 16) + 1] \o HexDigit[(s[a] % 16) + 1]
  ELSE LET m == (a + b) \div 2 IN HexIn(s, a, m) \o HexIn(s, m + 1, b)
Hex(s) == HexIn(s, 1, Len(s))

DictNo(r) ==
  LET p == DictArg(r.a)
  IN IF p = <<>> THEN r.d
     ELSE IF \E k \in DOMAIN Paths : Paths[k].p = p
            THEN Paths[CHOOSE k \in DOMAIN Paths : Paths[k].p = p].d ELSE 0

Row(w, d, n) == Table[CHOOSE k \in DOMAIN Table :
                        Table[k].w = w /\ Table[k].d = d /\ Table[k].n = n]

TextOf(rows, it) ==
  IF it.item = "head" THEN Hex(it.w) \o "3a0a"
  ELSE rows[it.w].o[it.n \o ToString(it.s)] \o "0a"
RECURSIVE Text(_, _, _, _)
Text(rows, its, a, b) ==        \* what is written for items a to b
  IF a > b THEN ""
  ELSE IF a = b THEN TextOf(rows, its[a])
  ELSE LET m == (a + b) \div 2
       IN Text(rows, its, a, m) \o Text(rows, its, m + 1, b)

Contains(s, w) == \E k \in 0..(Len(s) - Len(w)) : SubSeq(s, k + 1, k + Len(w)) = w
(* the bytes of w that are no text may be left out or replaced *)
RECURSIVE AsciiOf(_, _)
AsciiOf(w, k) == IF k > Len(w) \/ w[k] >= 128 THEN <<>>
                 ELSE <<w[k]>> \o AsciiOf(w, k + 1)

Verdict(r) ==
  IF "x" \in DOMAIN r THEN "failed " \o r.x
  ELSE IF Stops(r.a) THEN
    CASE r.st # 1 -> "status " \o ToString(r.st) \o " where 1 is due"
      [] ~(r.out \in {"", Msgs.help, Msgs.version}) -> "writes more than a message"
      [] r.out = "" /\ r.err = <<>> -> "no message"
      [] (\A k \in DOMAIN r.a : IsOption(r.a[k]) /\ Kind(r.a[k]) \in Stopping =>
            Kind(r.a[k]) = "help") /\ r.out # Msgs.help -> "no help"
      [] (\A k \in DOMAIN r.a : IsOption(r.a[k]) /\ Kind(r.a[k]) \in Stopping =>
            Kind(r.a[k]) = "version") /\ r.out # Msgs.version -> "no version"
      [] ~HasKind(r.a, "help") /\ ~HasKind(r.a, "version") /\ r.err = <<>>
           -> "wrong option not reported"
      [] OTHER -> "ok"
  ELSE
    LET d == DictNo(r)
        n == HasKind(r.a, "nobreak")
        ws == Words(r.a, r.in)
        set == {ws[k] : k \in DOMAIN ws}
        rows == [w \in set |-> Row(w, d, n)]
    IN CASE r.st # 0 -> "status " \o ToString(r.st) \o " where 0 is due"
         [] \E w \in set : rows[w].v # Valid(w) -> "validity of a word"
         [] LET its == Items(r.a, r.in) IN r.out # Text(rows, its, 1, Len(its)) -> "output"
         [] Bad(r.a, r.in) # {} /\ r.err = <<>> -> "bad word not reported"
         [] \E w \in Bad(r.a, r.in) : ~Contains(r.err, AsciiOf(w, 1))
              -> "report does not name the bad word"
         [] d = 0 /\ r.err = <<>> -> "missing dictionary not reported"
         [] d # 0 /\ Bad(r.a, r.in) = {} /\ r.err # <<>> -> "groundless report"
         [] OTHER -> "ok"

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
