------------------------------- MODULE GitRepo -------------------------------
(* Comparing two commits of a git repository that has a remote "origin"        *)
(* (properties C18 and C20).  Commits are numbered in the order of their       *)
(* creation; the files of a commit identify it.  The state of both             *)
(* repositories is                                                             *)
(*   par       sequence: the parent of every commit, 0 for a first one         *)
(*   rh, rt    branches and tags of the remote (name -> commit)                *)
(*   lo        the local repository: [heads, tags, track, head, fetched, tree] *)
(*     heads, tags  name -> commit                                             *)
(*     track        remote-tracking branches origin/name -> commit             *)
(*     head         [k |-> "sym", b |-> branch, c |-> 0] or                    *)
(*                  [k |-> "det", b |-> "", c |-> commit]                      *)
(*     known        the commits whose objects are available                    *)
(*     fetched      FETCH_HEAD                                                 *)
(*     tree         the commit whose files are in the working tree             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]

RECURSIVE Anc(_, _)
\* A commit and its ancestors.
Anc(par, c) == IF c = 0 THEN {} ELSE {c} \cup Anc(par, par[c])
RECURSIVE Back(_, _, _)
\* The k-th ancestor, 0 if there is none.
Back(par, c, k) == IF c = 0 \/ k = 0 THEN c ELSE Back(par, par[c], k - 1)

HeadCommit(lo) == IF lo.head.k = "sym" THEN lo.heads[lo.head.b] ELSE lo.head.c
Det(c) == [k |-> "det", b |-> "", c |-> c]
Sym(b) == [k |-> "sym", b |-> b, c |-> 0]

---------------------------------------------------------------------------
(* How a user can name a commit:                                               *)
(*   [k |-> "name", n]     a branch or tag                                     *)
(*   [k |-> "hash", c]     the full hash, "short": an abbreviated one          *)
(*   [k |-> "head", c |-> k]  HEAD~k                                           *)
(*   [k |-> "bad"]         something that git would take for an option or a    *)
(*                         refspec                                             *)
(*   [k |-> "unknown"]     anything else, e.g. the path of a file              *)
(* Every ref has all of the fields k, n, c.                                    *)
Ref(k, n, c) == [k |-> k, n |-> n, c |-> c]

\* The commit that git finds for a ref without looking at branches, 0 for none.
Plain(par, lo, r) ==
  CASE r.k = "name" -> IF r.n \in DOMAIN lo.tags THEN lo.tags[r.n] ELSE 0
    [] r.k \in {"hash", "short"} -> IF r.c \in lo.known THEN r.c ELSE 0
    [] r.k = "head" -> Back(par, HeadCommit(lo), r.c)
    [] OTHER -> 0

---------------------------------------------------------------------------
(* The steps of a comparison.  Each gives the set of possible [ok, lo].        *)
Ok(lo) == {[ok |-> TRUE, lo |-> lo]}
Fail(lo) == {[ok |-> FALSE, lo |-> lo]}

RemoteHas(par, rh, rt) == UNION {Anc(par, rh[b]) : b \in DOMAIN rh} \cup UNION {Anc(par, rt[t]) : t \in DOMAIN rt}

(* git fetch origin <ref>                                                      *)
Fetch(par, rh, rt, lo, r) ==
  LET got(c) == [lo EXCEPT !.known = @ \cup Anc(par, c), !.fetched = c] IN
  CASE r.k = "name" /\ r.n \in DOMAIN rh ->
         LET c == rh[r.n] IN
         Ok([got(c) EXCEPT !.track = (r.n :> c) @@ lo.track])
    [] r.k = "name" /\ r.n \in DOMAIN rt -> Ok(got(rt[r.n]))
    [] r.k = "hash" ->
         IF r.c \in RemoteHas(par, rh, rt) THEN Ok(got(r.c))
         ELSE IF r.c \in 1..Len(par) THEN Ok(got(r.c)) \cup Fail(lo)   \* it may still be there
         ELSE Fail(lo)
    [] r.k = "head" /\ r.c = 0 -> Ok(lo)      \* the remote's HEAD: FETCH_HEAD is not used
    [] OTHER -> Fail(lo)

(* git checkout <ref>                                                          *)
Checkout(par, lo, r) ==
  IF r.k = "name" /\ r.n \in DOMAIN lo.heads
  THEN Ok([lo EXCEPT !.head = Sym(r.n), !.tree = lo.heads[r.n]])
  ELSE IF r.k = "head" /\ r.c = 0 THEN Ok(lo)
  ELSE IF Plain(par, lo, r) # 0
  THEN LET c == Plain(par, lo, r) IN Ok([lo EXCEPT !.head = Det(c), !.tree = c])
  ELSE IF r.k = "name" /\ r.n \in DOMAIN lo.track
  THEN LET c == lo.track[r.n] IN       \* creates the branch
       Ok([lo EXCEPT !.heads = (r.n :> c) @@ @, !.head = Sym(r.n), !.tree = c])
  ELSE Fail(lo)

(* The checked out branch, if it was pulled, is fast-forwarded.                *)
FastForward(par, lo, r) ==
  IF ~(r.k = "name" /\ lo.head = Sym(r.n)) THEN Ok(lo)
  ELSE LET b == r.n IN
       IF lo.heads[b] \in Anc(par, lo.fetched)
       THEN Ok([lo EXCEPT !.heads[b] = lo.fetched, !.tree = lo.fetched])
       ELSE IF lo.fetched \in Anc(par, lo.heads[b]) THEN Ok(lo)
       ELSE Fail(lo)

(* Reset of a detached HEAD to origin/<ref> or else to <ref>.                  *)
Reset(par, lo, r) ==
  LET d == [lo EXCEPT !.head = Det(HeadCommit(lo))]
      to(c) == Ok([d EXCEPT !.head = Det(c), !.tree = c]) IN
  IF r.k = "name" /\ r.n \in DOMAIN lo.track THEN to(lo.track[r.n])
  ELSE IF Plain(par, lo, r) # 0 THEN to(Plain(par, lo, r))
  ELSE IF r.k = "name" /\ r.n \in DOMAIN lo.heads THEN to(lo.heads[r.n])
  ELSE Fail(d)

Then(outs, f(_)) == UNION {IF o.ok THEN f(o.lo) ELSE {o} : o \in outs}

(* One side of a comparison: afterwards the tree is that of the ref.           *)
(* p = [pull, force, offline]                                                  *)
Side(par, rh, rt, lo, r, p) ==
  LET pull == p.pull /\ ~p.offline
      f(l) == IF pull THEN Fetch(par, rh, rt, l, r) ELSE Ok(l)
  IN IF r.k = "bad" THEN Fail(lo)
     ELSE IF p.force THEN Then(f(lo), LAMBDA l : Reset(par, l, r))
     ELSE Then(Then(f(lo), LAMBDA l : Checkout(par, l, r)),
               LAMBDA l : IF pull THEN FastForward(par, l, r) ELSE Ok(l))

(* HEAD~k as new commit means the HEAD from before the comparison.             *)
Pin(par, lo, r, p) ==
  IF p.force \/ r.k # "head" THEN r
  ELSE LET c == Back(par, HeadCommit(lo), r.c) IN IF c = 0 THEN Ref("unknown", "", 0) ELSE Ref("hash", "", c)

(* Some commits have a file that cannot be parsed, which is an error unless    *)
(* p.ignore.                                                                   *)
Broken(c) == c % 4 = 3
Readable(c, p) == p.ignore \/ ~Broken(c)

(* The possible outcomes of a comparison: [res, lo] with res the pair of       *)
(* commits that are compared, or <<0, 0>> for an error.                        *)
Outcomes(par, rh, rt, lo, old, new, p) ==
  LET new2 == Pin(par, lo, new, p)
      bad == new2.k = "unknown" /\ new.k = "head"       \* reported before anything is done
      a == IF bad THEN Fail(lo) ELSE Side(par, rh, rt, lo, old, p) IN
  UNION {IF ~o.ok \/ ~Readable(o.lo.tree, p) THEN {[res |-> <<0, 0>>, lo |-> o.lo]}
         ELSE {[res |-> IF q.ok /\ Readable(q.lo.tree, p) THEN <<o.lo.tree, q.lo.tree>> ELSE <<0, 0>>, lo |-> q.lo] :
               q \in Side(par, rh, rt, o.lo, new2, p)} : o \in a}

(* If a step fails that would have succeeded, or the process is killed, any    *)
(* number of steps may have been done.                                         *)
Partial(par, rh, rt, lo, r, p) ==
  LET pull == p.pull /\ ~p.offline
      L(outs) == {o.lo : o \in outs}
      f == IF pull THEN Fetch(par, rh, rt, lo, r) ELSE Ok(lo)
      d(l) == [l EXCEPT !.head = Det(HeadCommit(l))]
  IN IF r.k = "bad" THEN {lo}
     ELSE {lo} \cup L(f) \cup
          (IF p.force THEN {d(l) : l \in L(f)} \cup L(Then(f, LAMBDA l : Reset(par, l, r)))
           ELSE L(Then(f, LAMBDA l : Checkout(par, l, r))) \cup L(Side(par, rh, rt, lo, r, p)))
FaultyOutcomes(par, rh, rt, lo, old, new, p) ==
  LET new2 == Pin(par, lo, new, p) IN
  Outcomes(par, rh, rt, lo, old, new, p)
  \cup {[res |-> <<0, 0>>, lo |-> l] :
        l \in {lo} \cup Partial(par, rh, rt, lo, old, p)
              \cup UNION {Partial(par, rh, rt, o.lo, new2, p) : o \in {x \in Side(par, rh, rt, lo, old, p) : x.ok}}}

---------------------------------------------------------------------------
(* What a ref denotes when a comparison starts (property C18), independently   *)
(* of how it is checked out: a set of commits, empty where it denotes none.    *)
Denotes(par, rh, rt, lo, r, p) ==
  LET pull == p.pull /\ ~p.offline
      one(c) == IF c = 0 THEN {} ELSE {c}
      at(f) == IF r.n \in DOMAIN f THEN {f[r.n]} ELSE {}
      first(A, B, C) == IF A # {} THEN A ELSE IF B # {} THEN B ELSE C IN
  CASE r.k \in {"hash", "short"} ->
         IF r.c \in lo.known \/ (pull /\ r.k = "hash" /\ r.c \in 1..Len(par)) THEN {r.c} ELSE {}
    [] r.k = "head" -> one(Back(par, HeadCommit(lo), r.c))
    [] r.k # "name" -> {}
    [] pull /\ r.n \in DOMAIN rh ->
         IF p.force \/ r.n \notin DOMAIN lo.heads THEN {rh[r.n]}
         ELSE IF lo.heads[r.n] \in Anc(par, rh[r.n]) THEN {rh[r.n]}
         ELSE IF rh[r.n] \in Anc(par, lo.heads[r.n]) THEN {lo.heads[r.n]}     \* unpublished commits
         ELSE {}
    [] pull /\ r.n \in DOMAIN rt /\ r.n \notin DOMAIN lo.tags -> {rt[r.n]}      \* a new tag
    [] p.force -> first(at(lo.track), at(lo.tags), at(lo.heads))
    [] OTHER   -> first(at(lo.heads), at(lo.tags), at(lo.track))

(* What happened to local branches is acceptable: nothing is removed; new ones *)
(* are those that were checked out; moved ones were pulled.                    *)
HeadsOk(par, rh, lo, lo2, refs, p) ==
  /\ DOMAIN lo.heads \subseteq DOMAIN lo2.heads
  /\ \A b \in DOMAIN lo2.heads :
       IF b \in DOMAIN lo.heads
       THEN lo2.heads[b] = lo.heads[b]
            \/ (/\ p.pull /\ ~p.offline /\ ~p.force
                /\ \E r \in refs : r.k = "name" /\ r.n = b
                /\ b \in DOMAIN rh /\ lo2.heads[b] = rh[b] /\ lo.heads[b] \in Anc(par, rh[b]))
       ELSE ~p.force /\ \E r \in refs : r.k = "name" /\ r.n = b
  /\ lo2.tags = lo.tags
  /\ \A b \in DOMAIN lo.track : b \in DOMAIN lo2.track

---------------------------------------------------------------------------
(* What users and other programs do to both repositories between comparisons.  *)
(* Every operation is [op, b, c] with a name and a commit.                     *)
EnvEnabled(par, rh, rt, lo, e, names, tagnames) ==
  CASE e.op = "rcommit" -> e.b \in DOMAIN rh
    [] e.op = "rbranch" -> e.b \in names \ DOMAIN rh /\ e.c \in RemoteHas(par, rh, rt)
    [] e.op = "rforce"  -> e.b \in DOMAIN rh /\ e.c \in RemoteHas(par, rh, rt) \ {rh[e.b]}
    [] e.op = "rdelete" -> e.b \in DOMAIN rh \ {"main"}
    [] e.op = "rtag"    -> e.b \in tagnames \ DOMAIN rt /\ e.c \in RemoteHas(par, rh, rt)
    [] e.op = "lcommit" -> e.b \in DOMAIN lo.heads
    [] e.op = "lbranch" -> e.b \in names \ DOMAIN lo.heads /\ e.c \in lo.known
    [] e.op = "ltag"    -> e.b \in tagnames \ DOMAIN lo.tags /\ e.c \in lo.known
    [] e.op = "lcheckout" -> e.b \in DOMAIN lo.heads /\ lo.head # Sym(e.b)
    [] e.op = "ldetach" -> e.c \in lo.known /\ lo.head # Det(e.c)
    [] e.op = "ufetch"  -> TRUE
    [] OTHER -> FALSE
CreatesCommit(e) == e.op \in {"rcommit", "lcommit"}

\* [par, rh, rt, lo] after e.
EnvStep(par, rh, rt, lo, e) ==
  LET S == [par |-> par, rh |-> rh, rt |-> rt, lo |-> lo]
      n == Len(par) + 1 IN
  CASE e.op = "rcommit" -> [S EXCEPT !.par = Append(par, rh[e.b]), !.rh[e.b] = n]
    [] e.op = "rbranch" -> [S EXCEPT !.rh = (e.b :> e.c) @@ rh]
    [] e.op = "rforce"  -> [S EXCEPT !.rh[e.b] = e.c]
    [] e.op = "rdelete" -> [S EXCEPT !.rh = Without(rh, e.b)]
    [] e.op = "rtag"    -> [S EXCEPT !.rt = (e.b :> e.c) @@ rt]
    [] e.op = "lcommit" -> [S EXCEPT !.par = Append(par, lo.heads[e.b]),
                                     !.lo = [lo EXCEPT !.heads[e.b] = n, !.known = @ \cup {n},
                                                       !.tree = IF lo.head = Sym(e.b) THEN n ELSE @]]
    [] e.op = "lbranch" -> [S EXCEPT !.lo.heads = (e.b :> e.c) @@ lo.heads]
    [] e.op = "ltag"    -> [S EXCEPT !.lo.tags = (e.b :> e.c) @@ lo.tags]
    [] e.op = "lcheckout" -> [S EXCEPT !.lo = [lo EXCEPT !.head = Sym(e.b), !.tree = lo.heads[e.b]]]
    [] e.op = "ldetach" -> [S EXCEPT !.lo = [lo EXCEPT !.head = Det(e.c), !.tree = e.c]]
    \* fetches all branches, and the tags of what was fetched; keeps deleted branches
    [] e.op = "ufetch"  ->
         LET k == lo.known \cup UNION {Anc(par, rh[b]) : b \in DOMAIN rh}
             nt == {t \in DOMAIN rt \ DOMAIN lo.tags : rt[t] \in k}
         IN [S EXCEPT !.lo = [lo EXCEPT !.track = rh @@ @, !.known = k,
                                        !.tags = [t \in nt |-> rt[t]] @@ @]]
=============================================================================
