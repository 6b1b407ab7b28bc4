-------------------------------- MODULE Front --------------------------------
(* The scripts of the web pages (C29): what they ask the service for, what     *)
(* they offer, and where they lead to.  Three pages: the start page, the list  *)
(* of merge requests, and the result page.                                     *)
EXTENDS Text, Integers, FiniteSets

Range(q) == {q[i] : i \in 1..Len(q)}
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* Parameters of a request are a sequence of <<name, value>>, decoded.         *)
Keys(ps) == {ps[i][1] : i \in 1..Len(ps)}
Once(ps) == Cardinality(Keys(ps)) = Len(ps)
Get(ps, k) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]
\* The same parameters, in any order.
Same(ps, qs) == Once(ps) /\ Keys(ps) = Keys(qs) /\ \A k \in Keys(ps) : Get(ps, k) = Get(qs, k)
With(ps, k, v) == SelectSeq(ps, LAMBDA x : x[1] # k) \o <<<<k, v>>>>

(* The comparison of two refs of a repository, with the defaults.              *)
Ready(presets, repo) == repo \in DOMAIN presets
Comparison(n, presets, repo, old, new) ==
  /\ n.host = "" /\ n.path = "/compare"
  /\ \E u \in {"time", "weight"} :
       Same(n.params, <<<<"repo", repo>>, <<"old", old>>, <<"new", new>>, <<"path_pattern", presets[repo]>>, <<"unit", u>>,
                        <<"threshold", "10">>, <<"method", "asymptotic">>, <<"ignore_errors", "true">>>>)
Asks(n, repo, fetch) ==
  /\ n.host = "" /\ n.path = "/branches"
  /\ \/ Same(n.params, <<<<"repo", repo>>, <<"fetch", IF fetch THEN "true" ELSE "false">>>>)
     \/ ~fetch /\ Same(n.params, <<<<"repo", repo>>>>)
Asked(pending, wait) ==
  Len(pending) = Len(wait) /\ \A i \in 1..Len(wait) : Asks(pending[i], wait[i].repo, wait[i].fetch)

-----------------------------------------------------------------------------
(* The start page.  A state has the chosen repository ("" for none), the lists *)
(* of branches that are known (a sequence of [repo, list]), the requests that  *)
(* are not answered, and the last choices of branches.                         *)
Start0 == [repo |-> "", known |-> <<>>, wait |-> <<>>, first |-> "", second |-> "", shown |-> FALSE]
Knows(s, r) == \E i \in 1..Len(s.known) : s.known[i].repo = r
List(s, r) == s.known[CHOOSE i \in 1..Len(s.known) : s.known[i].repo = r].list
Learn(s, r, ns) == [s EXCEPT !.known = SelectSeq(@, LAMBDA x : x.repo # r) \o <<[repo |-> r, list |-> ns]>>]

\* What is selected in a new list: the last choice, or master.
Selection(last, ns) == IF last \in Range(ns) THEN last ELSE IF "master" \in Range(ns) THEN "master" ELSE ""
Keep(last, ns) == IF Selection(last, ns) = "" THEN last ELSE Selection(last, ns)
Show(s) == LET ns == List(s, s.repo) IN
           [s EXCEPT !.first = Keep(s.first, ns), !.second = Keep(s.second, ns), !.shown = TRUE]
Ask(s, fetch) == [s EXCEPT !.wait = Append(@, [repo |-> s.repo, fetch |-> fetch])]

\* The states that may follow a step.  Asking again is allowed.
Choose(s, r) ==
  LET t == [s EXCEPT !.repo = r, !.shown = FALSE] IN
  IF Knows(t, r) THEN {Show(t), Ask(Show(t), FALSE)}
  ELSE {Ask(t, FALSE)} \cup (IF \E i \in 1..Len(t.wait) : t.wait[i].repo = r THEN {t} ELSE {})
Fetch(s) == IF s.repo = "" THEN {s} ELSE {Ask(s, TRUE)}
Answer(s, i, ok, ns) ==
  LET q == s.wait[i]
      t == [s EXCEPT !.wait = RemoveAt(@, i)]
      u == Learn(t, q.repo, ns) IN
  IF ~ok THEN {t} ELSE IF q.repo = s.repo THEN {Show(u)} ELSE {u}
Pick(s, side, b) == {IF side = "first" THEN [s EXCEPT !.first = b] ELSE [s EXCEPT !.second = b]}
Reload(s, options) ==
  LET t == [Start0 EXCEPT !.first = s.first, !.second = s.second] IN
  IF s.repo \in options THEN Choose(t, s.repo) ELSE {t}

(* What is seen in a state: the branches of the chosen repository are offered  *)
(* and counted, never those of another one; the page is not busy without need. *)
Offers(s, see) ==
  s.shown =>
    LET ns == List(s, s.repo) IN
    /\ see.first = ns /\ see.second = ns
    /\ \A i \in 1..Len(see.counts) : see.counts[i] = ToString(Len(ns))
    /\ see.values[1] = s.repo
    /\ see.values[2] = (IF s.first \in Range(ns) THEN s.first ELSE "")
    /\ see.values[3] = (IF s.second \in Range(ns) THEN s.second ELSE "")
    /\ see.fields[1] = s.repo
    /\ s.first \in Range(ns) => see.fields[2] = s.first
    /\ s.second \in Range(ns) => see.fields[3] = s.second
Sees(s, see) == /\ Asked(see.pending, s.wait) /\ Offers(s, see)
                /\ s.wait = <<>> /\ see.navs = <<>> => ~see.busy
StartStep(s, e) ==
  {t \in (CASE e.do = "open"   -> {Start0}
            [] e.do = "reload" -> Reload(s, Range(e.options))
            [] e.do = "choose" -> Choose(s, e.repo)
            [] e.do = "fetch"  -> Fetch(s)
            [] e.do = "answer" -> IF e.i \in 1..Len(s.wait) THEN Answer(s, e.i, e.ok, e.names) ELSE {}
            [] e.do = "pick"   -> Pick(s, e.side, e.branch)
            [] e.do = "go"     -> {s}) :
     /\ ~e.see.missing /\ Sees(t, e.see)
     /\ IF e.do # "go" THEN e.see.navs = <<>>
        ELSE LET ns == List(s, s.repo) IN
             IF s.repo # "" /\ Ready(e.presets, s.repo)
             THEN s.shown /\ s.first \in Range(ns) /\ s.second \in Range(ns) =>
                    Len(e.see.navs) = 1 /\ Comparison(e.see.navs[1], e.presets, s.repo, s.first, s.second)
             ELSE e.see.navs = <<>>}

-----------------------------------------------------------------------------
(* The merge requests of a repository, as they are listed by GitHub.           *)
Mrs0 == [owner |-> "", repo |-> "", query |-> <<>>, prs |-> <<>>, listed |-> FALSE, wait |-> <<>>]
Own(s, p) == p.headowner = s.owner
Interesting(p) == \E x \in {p.ltitle, p.lhead, p.lbase} : Contains(x, "weight")
RECURSIVE Newest(_)
Newest(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET i == CHOOSE k \in 1..Len(ps) : \A j \in 1..Len(ps) : ps[j].date <= ps[k].date
       IN <<ps[i]>> \o Newest(RemoveAt(ps, i))
Title(p) == IF Len(p.title) > 100 THEN SubSeq(p.title, 1, 100) ELSE p.title
RowOk(s, p, row) ==
  /\ Len(row.cells) >= 4
  /\ SubSeq(row.cells, 1, 4) = <<Title(p), p.user, p.head, p.base>>
  /\ (row.title # "") = ~Own(s, p)
ListOk(s, see) ==
  /\ Len(see.rows) = Len(s.prs)
  /\ \A i \in 1..Len(s.prs) : RowOk(s, s.prs[i], see.rows[i])
  /\ see.highlighted = ToString(Cardinality({i \in 1..Len(s.prs) : Own(s, s.prs[i]) /\ Interesting(s.prs[i])}))

ParamOr(q, k, d) == IF k \in Keys(q) /\ Get(q, k) # "" THEN Get(q, k) ELSE d
MrsStep(s, e) ==
  {t \in (CASE e.do = "open" -> {[Mrs0 EXCEPT !.query = e.query, !.owner = ParamOr(e.query, "owner", "paritytech"),
                                              !.repo = ParamOr(e.query, "repo", "polkadot-sdk")]}
            [] e.do = "list" -> {[s EXCEPT !.prs = Newest(e.prs), !.listed = TRUE]}
            [] e.do = "dbl"  -> LET p == s.prs[e.row] IN
                                IF Own(s, p) /\ Ready(e.presets, s.repo) THEN {[s EXCEPT !.wait = Append(@, p)]} ELSE {s}
            [] e.do = "answer" -> IF e.i \in 1..Len(s.wait) THEN {[s EXCEPT !.wait = RemoveAt(@, e.i)]} ELSE {}
            [] e.do = "switch" -> {s}) :
     /\ ~e.see.missing
     /\ IF ~t.listed
        THEN /\ Len(e.see.pending) = 1
             /\ e.see.pending[1].host = "api.github.com"
             /\ e.see.pending[1].path = "/repos/" \o t.owner \o "/" \o t.repo \o "/pulls"
             /\ (t.owner \o ":" \o t.repo) \in Range(e.options) => e.see.selrepo = t.owner \o ":" \o t.repo
        ELSE /\ ListOk(t, e.see)
             /\ Asked(e.see.pending, [i \in 1..Len(t.wait) |-> [repo |-> t.repo, fetch |-> TRUE]])
             /\ t.wait = <<>> /\ e.see.navs = <<>> => ~e.see.busy
     /\ CASE e.do = "answer" /\ e.ok -> /\ Len(e.see.navs) = 1
                                       /\ Comparison(e.see.navs[1], e.presets, s.repo, s.wait[e.i].base, s.wait[e.i].head)
          [] e.do = "switch" -> /\ Len(e.see.navs) = 1 /\ e.see.navs[1].host = "" /\ e.see.navs[1].path = "/compare-mr"
                               /\ Same(e.see.navs[1].params, With(With(s.query, "owner", e.owner), "repo", e.repo))
          [] OTHER -> e.see.navs = <<>>}

-----------------------------------------------------------------------------
(* The result page: a control changes its parameter and no other.              *)
(* At first the rows are shown from the worst change to the best one.          *)
Rank(r) == CASE r.old < 0 -> 2000000000 [] r.new < 0 -> -2000000 [] OTHER -> (100000 * (r.new - r.old)) \div r.old
WorstFirst(rows, ids) ==
  /\ Len(ids) = Len(rows) /\ Range(ids) = {rows[i].id : i \in DOMAIN rows}
  /\ LET rank == [x \in Range(ids) |-> Rank(rows[CHOOSE i \in DOMAIN rows : rows[i].id = x])] IN
     \A i \in 1..(Len(ids) - 1) : rank[ids[i]] >= rank[ids[i + 1]]
Table0 == [query |-> <<>>]
TableStep(s, e) ==
  {t \in (CASE e.do = "open" -> {[query |-> e.query]}
            [] e.do = "set"  -> {s}) :
     /\ ~e.see.missing /\ e.see.pending = <<>>
     /\ e.do = "open" => /\ e.see.anchor = e.anchor /\ ~e.see.busy
                        /\ e.see.selected = (IF e.anchor = "" THEN <<>> ELSE <<e.anchor>>)
                        /\ WorstFirst(e.rows, e.see.order)
     /\ IF e.do = "set" /\ e.value # ""
        THEN /\ Len(e.see.navs) = 1 /\ e.see.navs[1].host = "" /\ e.see.navs[1].path = "/compare"
             /\ Same(e.see.navs[1].params, With(s.query, e.key, e.value))
        ELSE e.see.navs = <<>>}

Step(kind, s, e) == CASE kind = "start" -> StartStep(s, e) [] kind = "mrs" -> MrsStep(s, e) [] kind = "table" -> TableStep(s, e)
=============================================================================
