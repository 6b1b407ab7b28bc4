----------------------------- MODULE ServiceMC -----------------------------
(* The design of the web service: a cache that is looked up and filled, a lock *)
(* per repository, and comparisons in steps.  Model checking shows that every  *)
(* response that it can give is right (Service!Verdict), whatever happens      *)
(* concurrently; without the locks it is not.  Simulation writes histories     *)
(* that are replayed on the real service.                                      *)
EXTENDS Service, Json

CONSTANTS Clients, Repos, Branches, MaxAsked, MaxMoves, MaxTicks,
          Locked,     \* a repository is used by one comparison at a time
          Sync,       \* the cache is locked during a comparison
          CacheErrors, Refreshing, Sloppy   \* defects: errors are cached; hits prolong; the threshold is no part of the key

VARIABLES clock, hist, track, tree, pend, done, cache, lock, sync, asked, moves, ticks, verdict
vars == <<clock, hist, track, tree, pend, done, cache, lock, sync, asked, moves, ticks, verdict>>

MCTtl == 2
Nobody == "nobody"
Idle == [pc |-> "idle"]

Init ==
  /\ clock = 1
  /\ hist = [k \in Repos |-> <<[n |-> "main", c |-> 2, s |-> -1, e |-> -1], [n |-> "dev", c |-> 1, s |-> -1, e |-> -1]>>]
  /\ track = [k \in Repos |-> [b \in Branches |-> IF b = "main" THEN 2 ELSE IF b = "dev" THEN 1 ELSE 0]]
  /\ tree = [k \in Repos |-> 2]
  /\ pend = [i \in Clients |-> Idle]
  /\ done = {} /\ cache = {} /\ lock = [k \in Repos |-> Nobody] /\ sync = Nobody
  /\ asked = 0 /\ moves = 0 /\ ticks = 0 /\ verdict = "ok"

Now(k, b) == LET I == {i \in 1..Len(hist[k]) : hist[k][i].n = b} IN IF I = {} THEN 0 ELSE hist[k][Last(I)].c

Question(k, old, new, thr, pull) ==
  [repo |-> k, old |-> old, new |-> new, pat |-> "w.rs", meth |-> "base", unit |-> "time", thr |-> thr, pal |-> {"w.rs"},
   ext |-> {"f"}, ign |-> FALSE, pull |-> pull, flaw |-> ""]
Main == Ref("name", "main", 0)
Questions == UNION {{Question(k, Main, Ref("hash", "", 1), 0, TRUE), Question(k, Main, Ref("hash", "", 1), 15, TRUE),
                     Question(k, Ref("name", "dev", 0), Main, 0, TRUE), Question(k, Main, Ref("hash", "", 1), 0, FALSE)} : k \in Repos}

Step(i, r) == pend' = [pend EXCEPT ![i] = r @@ @]
Ask(i, q) ==
  /\ pend[i] = Idle /\ asked < MaxAsked
  /\ pend' = [pend EXCEPT ![i] = [pc |-> "lookup", q |-> q, send |-> clock, o |-> 0, status |-> 0, hit |-> FALSE, ans |-> {}]]
  /\ asked' = asked + 1
  /\ UNCHANGED <<clock, hist, track, tree, done, cache, lock, sync, moves, ticks, verdict>>

Key(q) == IF Sloppy THEN [q EXCEPT !.thr = 0] ELSE q
Lookup(i) ==
  /\ pend[i].pc = "lookup" /\ sync = Nobody
  /\ LET H == {x \in cache : x.q = Key(pend[i].q) /\ clock - x.at < MCTtl} IN
     IF H # {}
     THEN \E x \in H :
          /\ Step(i, [pc |-> "answer", status |-> x.status, hit |-> TRUE, ans |-> x.ans])
          /\ cache' = IF Refreshing THEN (cache \ {x}) \cup {[x EXCEPT !.at = clock]} ELSE cache
          /\ UNCHANGED sync
     ELSE /\ Step(i, [pc |-> "lock"])
          /\ sync' = IF Sync THEN i ELSE sync
          /\ UNCHANGED cache
  /\ UNCHANGED <<clock, hist, track, tree, done, lock, asked, moves, ticks, verdict>>

Acquire(i) ==
  /\ pend[i].pc = "lock"
  /\ Locked => lock[pend[i].q.repo] = Nobody
  /\ lock' = IF Locked THEN [lock EXCEPT ![pend[i].q.repo] = i] ELSE lock
  /\ Step(i, [pc |-> "old"])
  /\ UNCHANGED <<clock, hist, track, tree, done, cache, sync, asked, moves, ticks, verdict>>

\* Fetch and reset to a ref, then go on at pc.
Reset(i, r, pc) ==
  LET q == pend[i].q
      k == q.repo
      got == IF r.k = "hash" THEN r.c ELSE IF q.pull THEN Now(k, r.n) ELSE track[k][r.n]
  IN IF got = 0
     THEN Step(i, [pc |-> "store", status |-> 500]) /\ UNCHANGED <<track, tree>>
     ELSE /\ tree' = [tree EXCEPT ![k] = got]
          /\ track' = IF r.k = "name" THEN [track EXCEPT ![k][r.n] = got] ELSE track
          /\ Step(i, [pc |-> pc])
Old(i) == /\ pend[i].pc = "old" /\ Reset(i, pend[i].q.old, "readold")
          /\ UNCHANGED <<clock, hist, done, cache, lock, sync, asked, moves, ticks, verdict>>
ReadOld(i) == /\ pend[i].pc = "readold" /\ Step(i, [pc |-> "new", o |-> tree[pend[i].q.repo]])
              /\ UNCHANGED <<clock, hist, track, tree, done, cache, lock, sync, asked, moves, ticks, verdict>>
New(i) == /\ pend[i].pc = "new" /\ Reset(i, pend[i].q.new, "readnew")
          /\ UNCHANGED <<clock, hist, done, cache, lock, sync, asked, moves, ticks, verdict>>
ReadNew(i) == /\ pend[i].pc = "readnew"
              /\ LET q == pend[i].q IN Step(i, [pc |-> "store", status |-> 200, ans |-> Rows(q, pend[i].o, tree[q.repo])])
              /\ UNCHANGED <<clock, hist, track, tree, done, cache, lock, sync, asked, moves, ticks, verdict>>
Store(i) ==
  /\ pend[i].pc = "store"
  /\ lock' = [k \in Repos |-> IF lock[k] = i THEN Nobody ELSE lock[k]]
  /\ cache' = IF pend[i].status = 200 \/ CacheErrors
              THEN {x \in cache : x.q # Key(pend[i].q)}
                   \cup {[q |-> Key(pend[i].q), ans |-> pend[i].ans, at |-> clock, status |-> pend[i].status]}
              ELSE cache
  /\ sync' = IF sync = i THEN Nobody ELSE sync
  /\ Step(i, [pc |-> "answer"])
  /\ UNCHANGED <<clock, hist, track, tree, done, asked, moves, ticks, verdict>>

Answer(i) ==
  /\ pend[i].pc = "answer"
  /\ LET x == pend[i]
         resp == [status |-> x.status, hit |-> x.hit, ans |-> x.ans]
         twins == \E j \in Clients \ {i} : pend[j] # Idle /\ Same(pend[j].q, x.q) /\ pend[j].pc = "answer"
     IN /\ verdict' = Verdict(hist[x.q.repo], done, x.q, resp, x.send, clock, TRUE, twins)
        /\ done' = IF x.status = 200 /\ ~x.hit THEN done \cup {[q |-> x.q, ans |-> x.ans, send |-> x.send, recv |-> clock]} ELSE done
  /\ pend' = [pend EXCEPT ![i] = Idle]
  /\ UNCHANGED <<clock, hist, track, tree, cache, lock, sync, asked, moves, ticks>>

Move(k, b, c) ==
  /\ moves < MaxMoves /\ Now(k, b) # c
  /\ hist' = [hist EXCEPT ![k] = Append(@, [n |-> b, c |-> c, s |-> clock, e |-> clock])]
  /\ moves' = moves + 1
  /\ UNCHANGED <<clock, track, tree, pend, done, cache, lock, sync, asked, ticks, verdict>>
Tick == /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ clock' = clock + 1
        /\ UNCHANGED <<hist, track, tree, pend, done, cache, lock, sync, asked, moves, verdict>>

Next == \/ \E i \in Clients : \/ \E q \in Questions : Ask(i, q)
                              \/ Lookup(i) \/ Acquire(i) \/ Old(i) \/ ReadOld(i) \/ New(i) \/ ReadNew(i) \/ Store(i) \/ Answer(i)
        \/ \E k \in Repos, b \in Branches : Move(k, b, 4) \/ Move(k, b, 0)
        \/ Tick
Spec == Init /\ [][Next]_vars

Right == verdict = "ok"
Using(i) == pend[i].pc \in {"old", "readold", "new", "readnew"}
Exclusive == \A i, j \in Clients : (i # j /\ Using(i) /\ Using(j)) => pend[i].q.repo # pend[j].q.repo
\* Everyone is answered in the end.
Answered == \A i \in Clients : (pend[i] # Idle) ~> (pend[i] = Idle)
Progress == \A i \in Clients : WF_vars(Lookup(i) \/ Acquire(i) \/ Old(i) \/ ReadOld(i) \/ New(i) \/ ReadNew(i) \/ Store(i) \/ Answer(i))
FairSpec == Spec /\ Progress
Sym == Permutations(Clients)
=============================================================================
