-------------------------------- MODULE FrontMC --------------------------------
(* The start page with a user and a service whose answers come in any order:   *)
(* what is offered is always a list of the chosen repository, the newest that  *)
(* the page knows.  The page is modelled as it is built: one list in the       *)
(* document, and handlers.                                                     *)
EXTENDS Front

CONSTANTS Repos, MaxVersion, MaxWait,
          Eager      \* a flawed page: every answer is displayed

VARIABLES s,        \* the page by the specification
          doc,      \* the list in the document: [repo, v], or <<>>
          cache,    \* what the script remembers: repo -> version, 0 for nothing
          vers      \* the version of the lists at the service
vars == <<s, doc, cache, vers>>

\* (A list is represented by its repository and version.)
L(r, v) == <<r, ToString(v)>>
Init == s = Start0 /\ doc = <<>> /\ cache = [r \in Repos |-> 0] /\ vers = [r \in Repos |-> 1]

UserChooses(r) ==
  /\ Len(s.wait) < MaxWait
  /\ s' \in {t \in Choose(s, r) : IF cache[r] = 0 THEN Len(t.wait) = Len(s.wait) + 1 ELSE t.wait = s.wait}
  /\ doc' = IF cache[r] # 0 THEN L(r, cache[r]) ELSE doc
  /\ UNCHANGED <<cache, vers>>
UserFetches == Len(s.wait) < MaxWait /\ s.repo # "" /\ s' \in Fetch(s) /\ UNCHANGED <<doc, cache, vers>>
Answered(i, ok) ==
  LET q == s.wait[i] IN
  /\ s' \in Answer(s, i, ok, L(q.repo, vers[q.repo]))
  /\ cache' = IF ok THEN [cache EXCEPT ![q.repo] = vers[q.repo]] ELSE cache
  /\ doc' = IF ok /\ (Eager \/ q.repo = s.repo) THEN L(q.repo, vers[q.repo]) ELSE doc
  /\ UNCHANGED vers
Moves(r) == vers[r] < MaxVersion /\ vers' = [vers EXCEPT ![r] = @ + 1] /\ UNCHANGED <<s, doc, cache>>

Next == \/ \E r \in Repos : UserChooses(r) \/ Moves(r)
        \/ UserFetches
        \/ \E i \in 1..Len(s.wait), ok \in BOOLEAN : Answered(i, ok)
Spec == Init /\ [][Next]_vars

\* The page and the specification offer the same.
Right == s.shown => doc = List(s, s.repo)
\* Nobody waits forever: with the last answer for the chosen repository its list is shown, unless it failed.
Consistent == /\ s.shown => s.repo # "" /\ Knows(s, s.repo)
              /\ \A r \in Repos : (cache[r] # 0) = Knows(s, r)
              /\ \A r \in Repos : Knows(s, r) => List(s, r) = L(r, cache[r])
              /\ Knows(s, s.repo) => s.shown
=============================================================================
