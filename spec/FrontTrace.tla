------------------------------ MODULE FrontTrace ------------------------------
(* Validates recorded visits of the web pages: a visit begins with `open`.     *)
EXTENDS Front, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS Checks, ChunkSize
N == Len(Trace)

VARIABLES l,      \* the next line
          at,     \* the line that was judged last
          s,      \* the states that the page may be in
          bad
vars == <<l, at, s, bad>>

Init == \E i \in 1..N : Trace[i].do = "open" /\ l = i /\ at = i /\ s = {<<>>} /\ bad = {}
Follow == UNION {Step(Trace[l].kind, x, Trace[l]) : x \in s}
Next ==
  \/ /\ l > 0
     /\ at' = l
     /\ s' = Follow
     /\ bad' = IF Follow = {} THEN Checks ELSE {}
     /\ l' = IF l < N /\ Trace[l + 1].do # "open" THEN l + 1 ELSE 0
  \/ l = 0 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Accepted_ == bad = {}
Walked == TRUE
=============================================================================
