------------------------------ MODULE Service ------------------------------
(* The web service, as seen by its clients (properties C21, C22, C23, C25):    *)
(* which answers to a question are right, given what the remotes contained and *)
(* what was answered before.                                                   *)
(*                                                                             *)
(* A question is [repo, old, new, pat, meth, unit, thr, pal, ext, ign, pull,   *)
(* flaw].  Refs are names of branches and tags, or "#c" for the hash of commit *)
(* c given as [k |-> "hash", c]; see Ref.  flaw is what is wrong with the      *)
(* request itself, "" if nothing.                                              *)
(* An answer is a set of rows [f, n, o, w]: file, name, values, 0 for none.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ref(k, n, c) == [k |-> k, n |-> n, c |-> c]     \* k is "name", "hash" or "none"

---------------------------------------------------------------------------
(* The weight files of commit c of repository k, and what is shown of them.    *)
Base(k, c) == 1000 * k + 137 * c
HasG(c) == c % 2 = 0
Broken(c) == c % 5 = 3            \* a file in docs that cannot be parsed
Patterns == {"w.rs", "docs/*.rs", "**/*.rs"}
PicksW(q) == q.pat \in {"w.rs", "**/*.rs"}
PicksDocs(q) == q.pat \in {"docs/*.rs", "**/*.rs"}
Readable(q, c) == q.ign \/ ~PicksDocs(q) \/ ~Broken(c)

ValueF(q, c) == IF q.unit = "proof" THEN 3 * Base(q.repo, c)
                ELSE Base(q.repo, c) + (IF q.meth = "base" THEN 0 ELSE 1000)
ValueG(q, c) == IF q.unit = "proof" THEN Base(q.repo, c) ELSE 2 * Base(q.repo, c)

Abs(x) == IF x < 0 THEN -x ELSE x
Row(f, n, o, w) == [f |-> f, n |-> n, o |-> o, w |-> w]
Shown(q, r) == IF r.o = 0 \/ r.w = 0 THEN TRUE
               ELSE IF r.o = r.w THEN q.thr = 0 ELSE Abs(r.w - r.o) * 100 >= q.thr * r.o
\* q.pal and q.ext are sets of files and of names: those that the regexes match.
Rows(q, o, n) ==
  {r \in (IF PicksW(q) THEN {Row("w.rs", "f", ValueF(q, o), ValueF(q, n))} ELSE {})
         \cup (IF PicksDocs(q) /\ (HasG(o) \/ HasG(n))
               THEN {Row("docs/x.rs", "g", IF HasG(o) THEN ValueG(q, o) ELSE 0, IF HasG(n) THEN ValueG(q, n) ELSE 0)} ELSE {}) :
     r.f \in q.pal /\ r.n \in q.ext /\ Shown(q, r)}

---------------------------------------------------------------------------
(* What the remote contained, as a history for every repository:               *)
(* a sequence of [n, c, s, e]: the ref n became commit c (0: was removed) at   *)
(* some time in s..e.                                                          *)
Last(S) == CHOOSE x \in S : \A y \in S : y <= x

\* The commits that ref name n can have had at some time in a..b.
During(h, n, a, b) ==
  LET I == {i \in 1..Len(h) : h[i].n = n}
      \* i is over when the next change of n is surely done
      gone(i) == \E j \in I : j > i /\ h[j].e < a
  IN {h[i].c : i \in {x \in I : h[x].s <= b /\ ~gone(x)}}
     \cup (IF \E i \in I : h[i].e < a THEN {} ELSE {0})

(* What a ref can denote for a request that was sent at a and answered at b.   *)
(* seen is the time at which the last request for it that certainly fetched it *)
(* was sent.  0 stands for nothing.                                            *)
Denoted(h, r, pull, a, b, seen) ==
  CASE r.k = "hash" -> {r.c}
    [] r.k = "name" -> IF pull THEN During(h, r.n, a, b) ELSE During(h, r.n, seen, b) 
    [] OTHER -> {0}

---------------------------------------------------------------------------
(* The answers so far: a set of [q, ans, send, recv], those that were computed.*)
Ttl == 600000

Same(q1, q2) == q1 = q2

Fresh(done, q, ans, send) ==
  \E d \in done : Same(d.q, q) /\ d.ans = ans /\ send - d.recv < Ttl

\* When r was last surely fetched before a.
Seen(done, repo, r, a) ==
  LET T == {d.send : d \in {x \in done : /\ x.q.repo = repo /\ x.q.pull /\ x.recv < a
                                         /\ (x.q.old = r \/ x.q.new = r)}}
  IN IF T = {} THEN 0 ELSE Last(T)

(* The response [status, hit, ans] to a request for q, sent at a and answered  *)
(* at b, is right.  h: history of its repository; calm: no fault was possible; *)
(* twins: identical requests that are not answered yet.                        *)
Computed(h, done, q, resp, a, b) ==
  \E o \in Denoted(h, q.old, q.pull, a, b, Seen(done, q.repo, q.old, a)) \ {0} :
  \E n \in Denoted(h, q.new, q.pull, a, b, Seen(done, q.repo, q.new, a)) \ {0} :
     Readable(q, o) /\ Readable(q, n) /\ resp.ans = Rows(q, o, n)
MustFail(h, done, q, a, b) ==
  \/ q.flaw # ""
  \/ \A o \in Denoted(h, q.old, q.pull, a, b, Seen(done, q.repo, q.old, a)) : o = 0 \/ ~Readable(q, o)
  \/ \A n \in Denoted(h, q.new, q.pull, a, b, Seen(done, q.repo, q.new, a)) : n = 0 \/ ~Readable(q, n)
MayFail(h, done, q, a, b) ==
  \/ q.flaw # ""
  \/ \E o \in Denoted(h, q.old, q.pull, a, b, Seen(done, q.repo, q.old, a)) : o = 0 \/ ~Readable(q, o)
  \/ \E n \in Denoted(h, q.new, q.pull, a, b, Seen(done, q.repo, q.new, a)) : n = 0 \/ ~Readable(q, n)

\* The verdict on a response: "ok", or what is wrong.
Verdict(h, done, q, resp, a, b, calm, twins) ==
  CASE resp.status \notin {200, 500} -> "no answer"
    [] resp.status = 500 -> IF calm /\ ~MayFail(h, done, q, a, b) THEN "refused" ELSE "ok"
    [] resp.hit -> IF q.flaw = "" /\ (Fresh(done, q, resp.ans, a) \/ twins) THEN "ok" ELSE "stale"
    [] OTHER -> IF MustFail(h, done, q, a, b) THEN "accepted"
                ELSE IF Computed(h, done, q, resp, a, b) THEN "ok" ELSE "wrong"
=============================================================================
