------------------------------- MODULE Offers -------------------------------
(* What the tools offer: the names of options, the repositories that the       *)
(* service serves, and its entry pages (C28).                                  *)
EXTENDS Text, FiniteSets

Method == [base |-> "Base"] @@ ("guess-worst" :> "GuessWorst") @@ ("exact-worst" :> "ExactWorst")
          @@ ("exact-asymptotic" :> "ExactAsymptotic") @@ ("asymptotic" :> "Asymptotic")
\* `weight` is the former name of the time dimension.
Unit == [time |-> "Time", weight |-> "Time", proof |-> "Proof"]
UnitShown == {"time", "proof"}
Change == [unchanged |-> "Unchanged", changed |-> "Changed", added |-> "Added", removed |-> "Removed"]

\* What a name is read as: << >> if it is refused.
Reading(names, n, lower) ==
  IF n \in DOMAIN names THEN {<<names[n]>>}
  ELSE IF lower \in DOMAIN names THEN {<<>>, <<names[lower]>>}   \* other spellings may be accepted
  ELSE {<<>>}
SeqSet(q) == {q[i] : i \in 1..Len(q)}
NamesOk(e) ==
  /\ e.method \in Reading(Method, e.name, e.lower)
  /\ e.unit \in Reading(Unit, e.name, e.lower)
  /\ e.change \in Reading(Change, e.name, e.lower)
  \* The lists of names: each once, with what it stands for.
  /\ SeqSet(e.methods) = {<<Method[n], n>> : n \in DOMAIN Method} /\ Len(e.methods) = Cardinality(DOMAIN Method)
  /\ SeqSet(e.units) = {<<Unit[n], n>> : n \in UnitShown} /\ Len(e.units) = Cardinality(UnitShown)
  /\ SeqSet(e.changes) = DOMAIN Change /\ Len(e.changes) = Cardinality(DOMAIN Change)

-----------------------------------------------------------------------------
(* Pages.  A list of options is a sequence of [v |-> value, t |-> text,         *)
(* sel |-> selected].                                                          *)
Texts(os) == {os[i].t : i \in 1..Len(os)}
Values(os) == {os[i].v : i \in 1..Len(os)}
Exactly(os, S) == Texts(os) = S /\ Len(os) = Cardinality(S)
Selected(os) == {os[i].v : i \in {j \in 1..Len(os) : os[j].sel}}
Plain(os, S) == Exactly(os, S) /\ \A i \in 1..Len(os) : os[i].v = os[i].t

RepoNames(e) == {e.repos[i].name : i \in 1..Len(e.repos)}
Repo(e, n) == e.repos[CHOOSE i \in 1..Len(e.repos) : e.repos[i].name = n]

(* The start page lists the repositories and how many there are; an offered    *)
(* value is understood as the repository of that name: `heads` is what the     *)
(* service lists for it.                                                       *)
StartOk(e, p) ==
  /\ p.status = 200
  /\ Exactly(p.options, RepoNames(e))
  /\ p.count = ToString(Len(e.repos))
  /\ \A i \in 1..Len(p.options) :
       /\ p.options[i].heads.status = 200
       /\ SeqSet(p.options[i].heads.names) = SeqSet(Repo(e, p.options[i].t).branches)
MrsOk(e, p) ==
  /\ p.status = 200
  /\ Plain(p.options, {e.repos[i].org \o ":" \o e.repos[i].name : i \in 1..Len(e.repos)})

(* A result page offers all repositories, dimensions and methods, and its       *)
(* controls show what was asked for; what was not is shown as what was done.    *)
Default == [pallet |-> ".*", extrinsic |-> ".*", git_pull |-> "true"]
Shown(k, v) == IF k \in {"ignore_errors", "git_pull"} THEN IF v = "true" THEN "yes" ELSE "no" ELSE v
ControlsOk(p) ==
  \A k \in DOMAIN p.shown :
    p.shown[k] = Shown(k, IF k \in DOMAIN p.asked THEN p.asked[k] ELSE Default[k])
ResultOk(e, p) ==
  IF p.unit \in DOMAIN Unit /\ p.method \in DOMAIN Method /\ p.repo \in RepoNames(e)
  THEN /\ p.status = 200
       /\ Plain(p.repos, RepoNames(e)) /\ Selected(p.repos) = {p.repo}
       /\ Plain(p.units, UnitShown) /\ Selected(p.units) = {IF p.unit = "weight" THEN "time" ELSE p.unit}
       /\ Plain(p.methods, DOMAIN Method) /\ Selected(p.methods) = {p.method}
       /\ p.version = e.version.text
       /\ ControlsOk(p)
  ELSE p.status >= 400 /\ p.status < 600

(* The version: the one of the package and of the source, `1.2.3+hash`; a      *)
(* deployment asks whether it is the one it wants.                             *)
VersionOk(e) ==
  LET v == e.version IN
  /\ v.status = 200 /\ StartsWith(v.text, e.package \o "+")
  /\ \A i \in 1..Len(v.said) : v.said[i] = v.text
  /\ Len(v.text) > Len(e.package) + 1
  /\ v.badge = 200 /\ \E i \in 1..Len(v.badgetexts) : v.badgetexts[i] = v.text
  /\ \A i \in 1..Len(v.asked) :
       LET q == v.asked[i] IN
       IF q.is \in {v.text, v.spaced} THEN q.status = 200 ELSE q.status = 500

(* Files below the folder of static files are served as they are; whatever     *)
(* else is asked for, nothing of other files is answered.                      *)
StaticOk(e) ==
  \A i \in 1..Len(e.static) :
    LET q == e.static[i] IN
    /\ q.status # 0
    /\ q.missing => q.status = 404
    /\ q.inside => q.status = 200 /\ q.same
    /\ ~q.leaks

OffersOk(e) ==
  /\ StartOk(e, e.start) /\ StartOk(e, e.commit) /\ MrsOk(e, e.mrs)
  /\ \A i \in 1..Len(e.pages) : ResultOk(e, e.pages[i])
  /\ VersionOk(e) /\ StaticOk(e)
=============================================================================
