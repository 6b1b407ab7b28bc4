---------------------------- MODULE ServiceTrace ----------------------------
(* Validates recorded histories of requests to the real web service against    *)
(* Service.  Times are milliseconds of the service's clock.  Events:           *)
(*   start   hist: the refs of every repository                                *)
(*   ref     a ref of a remote changes                                         *)
(*   send    a request is sent                                                 *)
(*   use     a working tree is changed for the only pending request that asks  *)
(*           for that ref                                                      *)
(*   recv    a request is answered                                             *)
(*   list    the list of branches was requested and answered                   *)
(*   page    another page was requested and answered                           *)
EXTENDS Service, Json, IOUtils

CONSTANT Checks
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1..N : Trace[i].t = "start"}

VARIABLES l, at,
          hist,    \* see Service, for all repositories
          pend,    \* pending requests: a set of [id, q, at]
          done,    \* computed answers
          failed,  \* questions that were answered with an error
          owed,    \* hits whose answer must come from a request that is still pending
          owner, past,   \* of every working tree: who uses it, and who did so before
          bad
vars == <<l, at, hist, pend, done, failed, owed, owner, past, bad>>

Range(s) == {s[i] : i \in 1..Len(s)}
V(p, ok) == IF ok \/ p \notin Checks THEN {} ELSE {p}
Question(j) == [j EXCEPT !.pal = Range(@), !.ext = Range(@)]

Begin(i) == /\ l = i + 1 /\ at = i
            /\ hist = Trace[i].hist
            /\ pend = {} /\ done = {} /\ failed = {} /\ owed = {} /\ owner = <<>> /\ past = {} /\ bad = {}
Init == \E i \in Starts : Begin(i)
Here == l <= N /\ l \notin Starts
ev == Trace[l]
Go == l' = l + 1 /\ at' = l

\* ans was the right answer to q at some time until b.
Ever(h, q, ans, b) ==
  LET of(r) == (IF r.k = "hash" THEN {r.c} ELSE During(h, r.n, 0, b)) \ {0} IN
  q.flaw = "" /\ \E o \in of(q.old), n \in of(q.new) : ans = Rows(q, o, n)

RefChange ==
  /\ Here /\ ev.t = "ref" /\ Go
  /\ hist' = [hist EXCEPT ![ev.repo] = Append(@, [n |-> ev.n, c |-> ev.c, s |-> ev.s, e |-> ev.e, tag |-> ev.tag, odd |-> ev.odd])]
  /\ bad' = {} /\ UNCHANGED <<pend, done, failed, owed, owner, past>>

Send ==
  /\ Here /\ ev.t = "send" /\ Go
  /\ pend' = pend \cup {[id |-> ev.id, q |-> Question(ev.q), at |-> ev.at]}
  /\ bad' = {} /\ UNCHANGED <<hist, done, failed, owed, owner, past>>

\* The working tree ev.w belongs to one comparison until that is over.
Owner(w) == {x \in Range(owner) : x.w = w}
Use ==
  /\ Here /\ ev.t = "use" /\ Go
  /\ bad' = V("C21", <<ev.w, ev.id>> \notin past)
  /\ past' = past \cup {<<x.w, x.id>> : x \in {y \in Range(owner) : y.w = ev.w /\ y.id # ev.id}}
  /\ owner' = Append(SelectSeq(owner, LAMBDA x : x.w # ev.w), [w |-> ev.w, id |-> ev.id])
  /\ UNCHANGED <<hist, pend, done, failed, owed>>

Recv ==
  /\ Here /\ ev.t = "recv" /\ Go
  /\ LET x == CHOOSE y \in pend : y.id = ev.id
         q == x.q
         h == IF q.flaw = "repo" THEN <<>> ELSE hist[q.repo]
         ans == Range(ev.ans)
         resp == [status |-> ev.status, hit |-> ev.hit, ans |-> ans]
         others == {y \in pend : y.id # ev.id /\ Same(y.q, q)}
         fresh == Fresh(done, q, ans, x.at)
         v0 == Verdict(h, done, q, resp, x.at, ev.at, ev.calm, others # {})
         v == IF ev.down /\ q.pull /\ ev.status = 200 /\ ~ev.hit THEN "accepted" ELSE v0
         owed1 == IF ev.status = 200 /\ ev.hit /\ ~fresh THEN {[q |-> q, ans |-> ans]} ELSE {}
         computed == ev.status = 200 /\ ~ev.hit
         owed2 == IF computed THEN {o \in owed : o.q # q \/ o.ans # ans} ELSE owed
         \* nobody is left who could have computed these
         lost == {o \in owed2 : o.q = q /\ others = {}}
     IN /\ bad' = V("C23", v \notin {"no answer", "refused", "accepted"})
                  \cup V("C21", v # "wrong")
                  \cup V("C21", (ev.status = 200 /\ ev.hit) => Ever(h, q, ans, ev.at))
                  \cup V("C21", ev.status = 200 => ev.echo = ev.raw)
                  \cup V("C22", v # "stale" /\ lost = {})
                  \cup V("C22", (v = "wrong") => \A d \in done : ~(Same(d.q, q) /\ d.ans = ans))
                  \cup V("C22", (v = "refused") => q \notin failed)
                  \* a comparison that is not from the cache runs git, one that is does not
                  \cup V("C22", (ev.alone /\ ev.status = 200) => (ev.hit = (ev.calls = 0)))
                  \cup V("C22", ev.status = 200 => ev.said)
        /\ pend' = pend \ {x}
        /\ done' = IF computed THEN done \cup {[q |-> q, ans |-> ans, send |-> x.at, recv |-> ev.at]} ELSE done
        /\ failed' = IF ev.status = 500 THEN failed \cup {q} ELSE failed
        /\ owed' = (owed2 \cup owed1) \ lost
  /\ UNCHANGED <<hist, owner, past>>

\* The list of branches and tags, and, after a fetch, the local copy.
\* (Names with braces or carets are odd: they are left out of the list.)
ListOk(h, list, a, b) ==
  LET names == {h[i].n : i \in 1..Len(h)}
      got == {<<x[1], x[2]>> : x \in Range(list)} IN
  /\ Cardinality(got) = Len(list)
  /\ \A x \in got : x[1] \in names /\ x[2] \in During(h, x[1], a, b) \ {0}
  /\ \A n \in names : 0 \notin During(h, n, a, b) => \E x \in got : x[1] = n
  /\ \A x, y \in got : x[1] = y[1] => x = y
List ==
  /\ Here /\ ev.t = "list" /\ Go
  /\ LET ok == CASE ev.status \notin {200, 500} -> FALSE
                 [] ev.flaw # "" -> ev.status = 500
                 [] ev.down -> ev.status = 500
                 [] ev.status = 500 -> ~ev.calm
                 [] OTHER -> /\ ListOk(SelectSeq(hist[ev.repo], LAMBDA x : ~x.odd), ev.list, ev.a, ev.b)
                             /\ ev.fetch => ListOk(SelectSeq(hist[ev.repo], LAMBDA x : ~x.tag), ev.local, ev.a, ev.b)
     \* Nothing is fetched unasked.
     IN bad' = V("C25", ok /\ ((ev.fetch /\ ev.flaw = "") \/ ev.same)) \cup V("C23", ev.status \in {200, 500})
  /\ UNCHANGED <<hist, pend, done, failed, owed, owner, past>>

Page ==
  /\ Here /\ ev.t = "page" /\ Go
  /\ bad' = V("C23", ev.status = ev.want)
  /\ UNCHANGED <<hist, pend, done, failed, owed, owner, past>>

Over == (l > N \/ l \in Starts) /\ UNCHANGED vars
Next == RefChange \/ Send \/ Use \/ Recv \/ List \/ Page \/ Over
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
=============================================================================
