---------------------------- MODULE TraceStrings ----------------------------
(***************************************************************************)
(* Validation of recorded histories of syllables and syllable strings.  A  *)
(* step has the operation p, what changed (g: kind, place and what it      *)
(* looks like now) and which strings (q) and which syllables (w) are       *)
(* equal.  A string looks like <<syllables, end>>, a syllable like         *)
(* <<label, position>>.                                                    *)
(***************************************************************************)
EXTENDS Strings, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Places == 1..3
Range(q) == {q[k] : k \in DOMAIN q}

Is(g, x) == CASE x[1] = "s" -> /\ x[3][1] = g.s[x[2]]
                               /\ x[3][2] = EndOf(g.s[x[2]])
              [] x[1] = "y" -> x[3] = g.y[x[2]]

RECURSIVE Follow(_, _, _)
Follow(h, k, g) ==
  IF k > Len(h) THEN "ok"
  ELSE LET s == h[k]
           g2 == After(g, s.p)
           seen(kind) == {x[2] : x \in {y \in Range(s.g) : y[1] = kind}}
           badly == {x \in Range(s.g) : ~Is(g2, x)}
           at == "step " \o ToString(k) \o " " \o s.p[1] \o s.p[2] \o ": "
       IN CASE badly # {} -> LET x == CHOOSE y \in badly : TRUE
                             IN at \o x[1] \o ToString(x[2]) \o " is " \o ToString(x[3])
            [] \/ \E x \in Places \ seen("s") : g2.s[x] # g.s[x]
               \/ \E x \in Places \ seen("y") : g2.y[x] # g.y[x] -> at \o "no effect"
            [] \E x, y \in Places : (s.q[x][y] = 1) # (Labels(g2.s[x]) = Labels(g2.s[y]))
                 -> at \o "equality of strings"
            [] \E x, y \in Places : (s.w[x][y] = 1) # (g2.y[x][1] = g2.y[y][1])
                 -> at \o "equality of syllables"
            [] OTHER -> Follow(h, k + 1, g2)

Verdict(r) == IF "x" \in DOMAIN r THEN "failed " \o r.x ELSE Follow(r.h, 1, Fresh(Places))

VARIABLES i, bad
Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ LET v == Verdict(Trace[i + 1])
     IN /\ i' = i + 1
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ bad' = bad + 1
                /\ IF bad < 20
                     THEN PrintT("@REJECT " \o ToString(i + 1) \o " " \o v)
                     ELSE TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Complete == TLCGet("diameter") = Len(Trace) + 1
=============================================================================
