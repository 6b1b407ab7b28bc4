------------------------------ MODULE LocalWork ------------------------------
(* What becomes of uncommitted work when commits are compared (C32).           *)
(* A commit is a tree, a function from files to contents (0: no such file).    *)
(* The local repository is [head, idx, wt]: the tree of the checked out        *)
(* commit, the staged files and the files in the folder.  Untracked is a file  *)
(* that exists but is not staged.                                              *)
EXTENDS Naturals, Sequences, FiniteSets

Files(s) == DOMAIN s.wt

(* git checkout: a file that is the same in both commits, or is staged as it   *)
(* is wanted, stays as it is; otherwise it has to be as in the checked out     *)
(* commit, or nothing at all is done.  (Nor if a file that is to be removed    *)
(* is staged as removed, but still there.)                                     *)
Stays(s, c, f) == s.head[f] = c[f] \/ s.idx[f] = c[f]
InTheWay(s, c, f) ==
  IF Stays(s, c, f) THEN s.head[f] # c[f] /\ c[f] = 0 /\ s.wt[f] # 0
  ELSE ~(s.idx[f] = s.head[f] /\ s.wt[f] \in {0, s.head[f]})
Checkout(s, c) ==
  IF \E f \in Files(s) : InTheWay(s, c, f) THEN [ok |-> FALSE, s |-> s]
  ELSE [ok |-> TRUE,
        s |-> [head |-> c,
               idx |-> [f \in Files(s) |-> IF Stays(s, c, f) THEN s.idx[f] ELSE c[f]],
               wt |-> [f \in Files(s) |-> IF Stays(s, c, f) THEN s.wt[f] ELSE c[f]]]]
(* git reset --hard: only untracked files that the commit does not have stay.  *)
Reset(s, c) ==
  [ok |-> TRUE,
   s |-> [head |-> c, idx |-> c,
          wt |-> [f \in Files(s) |-> IF c[f] # 0 THEN c[f] ELSE IF s.idx[f] # 0 THEN 0 ELSE s.wt[f]]]]
RECURSIVE Follow(_, _, _)
\* The commits of cs are put in place one after the other.
Follow(s, cs, force) ==
  IF cs = <<>> THEN [ok |-> TRUE, s |-> s]
  ELSE LET o == IF force THEN Reset(s, cs[1]) ELSE Checkout(s, cs[1]) IN
       IF o.ok THEN Follow(o.s, Tail(cs), force) ELSE o

(* A comparison: each side is a sequence of commits (a branch that is pulled   *)
(* is checked out as it is, and then moved), of which the last is compared.    *)
(* res: [ok, old, new], the contents that are read.                            *)
Comparison(s, old, new, force) ==
  LET a == Follow(s, old, force)
      b == IF a.ok THEN Follow(a.s, new, force) ELSE a
  IN [res |-> [ok |-> b.ok, old |-> a.s.wt, new |-> b.s.wt], s |-> b.s]

---------------------------------------------------------------------------
(* The property, independently of how commits are put in place.                *)
Clean(s, f) == s.idx[f] = s.head[f] /\ s.wt[f] = s.head[f]
Last(q) == q[Len(q)]
Rng(q) == {q[i] : i \in 1..Len(q)}

(* Without a forced reset nothing that was written is lost, staged or not,     *)
(* unless a commit has it anyway; with a forced reset, no untracked file of    *)
(* which the commits have none.                                                *)
WorkKept(s, s2, old, new, force) ==
  \A f \in Files(s) :
    IF ~force
    THEN LET safe == {0, s.head[f]} \cup {c[f] : c \in Rng(old) \cup Rng(new)} IN
         /\ s.wt[f] \notin safe => s2.wt[f] = s.wt[f]
         /\ s.idx[f] \notin safe => s2.idx[f] = s.idx[f]
    ELSE (s.idx[f] = 0 /\ \A c \in Rng(old) \cup Rng(new) : c[f] = 0) => s2.wt[f] = s.wt[f]

(* It is in the way only where it touches a file in which commits differ.      *)
Aside(s, old, new) ==
  \A f \in Files(s) : Clean(s, f) \/ \A c \in Rng(old) \cup Rng(new) : c[f] = s.head[f]
NotRefused(s, old, new, force, ok) == (force \/ Aside(s, old, new)) => ok

(* Files without uncommitted changes are compared as they are in the commits,  *)
(* others at least not as anything else than the work or the commit.           *)
Faithful(s, old, new, res) ==
  res.ok => \A f \in Files(s) :
    LET mine == IF Clean(s, f) THEN {} ELSE {s.wt[f]} IN
    res.old[f] \in {Last(old)[f]} \cup mine /\ res.new[f] \in {Last(new)[f]} \cup mine
\* And they all are as in one of the commits afterwards.
Settled(s, s2, old, new) ==
  \E c \in {s.head} \cup Rng(old) \cup Rng(new) : \A f \in Files(s) : Clean(s, f) => s2.wt[f] = c[f] /\ s2.idx[f] = c[f]

LocalWorkOk(s, old, new, force, res, s2) ==
  /\ WorkKept(s, s2, old, new, force)
  /\ NotRefused(s, old, new, force, res.ok)
  /\ Faithful(s, old, new, res)
  /\ Settled(s, s2, old, new)
=============================================================================
