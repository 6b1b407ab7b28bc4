----------------------------- MODULE LocalWorkMC -----------------------------
(* All small repositories with uncommitted work, and sequences of comparisons  *)
(* in them: the steps of a comparison never lose it.                           *)
EXTENDS LocalWork

CONSTANTS Fs, Contents, Work, Depth

Trees == [Fs -> Contents]
VARIABLES s, n, good
vars == <<s, n, good>>

Init == /\ \E h \in Trees, i, w \in [Fs -> Contents \cup Work] : s = [head |-> h, idx |-> i, wt |-> w]
        /\ n = 0 /\ good = TRUE
Compare(old, new, force) ==
  /\ n < Depth
  /\ LET o == Comparison(s, old, new, force) IN
     /\ good' = LocalWorkOk(s, old, new, force, o.res, o.s)
     /\ s' = o.s
  /\ n' = n + 1
\* A branch that is pulled has two commits.
Side == {<<c>> : c \in Trees} \cup {<<c, d>> : c \in {s.head}, d \in Trees}
Next == \E old, new \in Side, force \in BOOLEAN : Compare(old, new, force)
Spec == Init /\ [][Next]_vars
Safe == good
View == <<s, good>>
=============================================================================
