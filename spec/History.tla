------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* Histories of readers, dictionaries, readings and outputs.  A reader is  *)
(* a mode and the file loaded last (0: none, or the load failed).  Reading *)
(* makes a graph, known by what it depends on: text, mode and file.        *)
(*                                                                         *)
(* The events of a history are                                             *)
(*   <<"N", r, m>>        reader r is made, in mode m                      *)
(*   <<"M", r, m, f>>     reader r is made, in mode m, with file f         *)
(*   <<"L", r, f, ok>>    reader r loads file f                            *)
(*   <<"R", r, t, v>>     reader r reads text t; v is what it gave         *)
(*   <<"O", g, o, v>>     graph g is written by output o; v is the text    *)
(*   <<"C", g, v>>        graph g is copied; v is the copy                 *)
(* Ref says what a fresh reader gives in its first reading and a fresh     *)
(* graph in its first output.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS GoodFiles,            \* numbers of files that can be loaded
          RefGraph(_, _, _),    \* text, mode, file
          RefOut(_, _, _, _)    \* text, mode, file, output

Start == [readers |-> <<>>, graphs |-> <<>>]

Has(f, x) == x \in DOMAIN f

(* "ok" or what is wrong with event e in state s *)
Judge(s, e) ==
  CASE e[1] \in {"N", "M"} -> "ok"
    [] e[1] = "L" -> IF e[4] = (e[3] \in GoodFiles) THEN "ok" ELSE "result of loading"
    [] e[1] = "R" -> LET r == s.readers[e[2]]
                     IN IF e[4] = RefGraph(e[3], r[1], r[2]) THEN "ok" ELSE "reading"
    [] e[1] = "O" -> LET g == s.graphs[e[2]]
                     IN IF e[4] = RefOut(g[1], g[2], g[3], e[3]) THEN "ok" ELSE "output"
    [] e[1] = "C" -> LET g == s.graphs[e[2]]
                     IN IF e[3] = RefGraph(g[1], g[2], g[3]) THEN "ok" ELSE "copy"

After(s, e) ==
  CASE e[1] = "N" -> [s EXCEPT !.readers = (e[2] :> <<e[3], 0>>) @@ @]
    [] e[1] = "M" -> [s EXCEPT !.readers =
                        (e[2] :> <<e[3], IF e[4] \in GoodFiles THEN e[4] ELSE 0>>) @@ @]
    [] e[1] = "L" -> [s EXCEPT !.readers[e[2]] =
                        <<@[1], IF e[3] \in GoodFiles THEN e[3] ELSE 0>>]
    [] e[1] = "R" -> [s EXCEPT !.graphs = Append(@, <<e[3]>> \o s.readers[e[2]])]
    [] e[1] = "O" -> s
    [] e[1] = "C" -> [s EXCEPT !.graphs = Append(@, s.graphs[e[2]])]
=============================================================================
