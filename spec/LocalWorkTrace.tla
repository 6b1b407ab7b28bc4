---------------------------- MODULE LocalWorkTrace ----------------------------
(* Comparisons that were made in real repositories with uncommitted work.  An  *)
(* event has the trees of all commits; the state before and after, and what    *)
(* was compared, as sequences of contents with the index of the file; the      *)
(* commits of each side; and whether anything else (stashes, other branches,   *)
(* settings, ignored files) is as before.                                      *)
EXTENDS LocalWork, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
CONSTANTS ChunkSize, Checks

VARIABLES l, at, bad
vars == <<l, at, bad>>
Ok(e) ==
  LET side(q) == [i \in 1..Len(q) |-> e.trees[q[i]]]
      s == [head |-> e.trees[e.head], idx |-> e.before.idx, wt |-> e.before.wt]
      s2 == [head |-> s.head, idx |-> e.after.idx, wt |-> e.after.wt]
      res == [ok |-> e.ok, old |-> [f \in Files(s) |-> IF e.seen[f] THEN e.old_v[f] ELSE Last(side(e.old))[f]],
              new |-> [f \in Files(s) |-> IF e.seen[f] THEN e.new_v[f] ELSE Last(side(e.new))[f]]]
      model == Comparison(s, side(e.old), side(e.new), e.force)
  IN /\ e.same
     /\ LocalWorkOk(s, side(e.old), side(e.new), e.force, res, s2)
     \* And git does what the specification says that it does.
     /\ e.ok = model.res.ok
     /\ e.after.idx = model.s.idx /\ e.after.wt = model.s.wt
Init == \E i \in 1..N : i % ChunkSize = 1 % ChunkSize /\ l = i /\ at = i /\ bad = {}
Judge == /\ l # 0 /\ bad' = (IF Ok(Trace[l]) THEN {} ELSE Checks) /\ at' = l
         /\ l' = IF l < N /\ l % ChunkSize # 0 THEN l + 1 ELSE 0
Next == Judge \/ (l = 0 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Accepted_ == bad = {}
Walked == TRUE
=============================================================================
