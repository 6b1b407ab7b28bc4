------------------------------ MODULE Startup ------------------------------
(* How the web service starts (C31).  A configuration is                       *)
(*   repos   the folders in the order in which they are given: [name, dir,     *)
(*           url], dir being "repo" (a git repository), "plain" (a folder) or  *)
(*           "none", and url the address of its origin ("" if it has none)     *)
(*   static  "dir", or something that is not a folder                          *)
(*   cert, key  "none" if not given; "good" if they belong together            *)
(*   port    "free", "taken" or "bad"                                          *)
EXTENDS Text, FiniteSets

Hub == "https://github.com/"
\* The position of the first slash at or after i, or 0.
RECURSIVE Slash(_, _)
Slash(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "/" THEN i ELSE Slash(s, i + 1)
HasOrg(url) == StartsWith(url, Hub) /\ Slash(url, Len(Hub) + 1) > Len(Hub) + 1
Org(url) == SubSeq(url, Len(Hub) + 1, Slash(url, Len(Hub) + 1) - 1)

Set(q) == {q[i] : i \in 1..Len(q)}
Served(c) == \A r \in Set(c.repos) : r.dir = "repo" /\ HasOrg(r.url)
Secure(c) == c.cert # "none"
Starts(c) ==
  /\ c.repos # <<>> /\ Served(c)
  /\ c.static = "dir"
  /\ {c.cert, c.key} \in {{"none"}, {"good"}}
  /\ c.port = "free"

\* What was seen: [up, status, said, http, https, names, orgs, answers].
StartupOk(e) ==
  LET c == e.config
      s == e.seen
      ns == {r.name : r \in Set(c.repos)} IN
  IF Starts(c)
  THEN /\ s.up
       \* Either protocol, never both.
       /\ s.http = (IF Secure(c) THEN 0 ELSE 200) /\ s.https = (IF Secure(c) THEN 200 ELSE 0)
       \* Exactly the given repositories, each with its owner.
       /\ Set(s.names) = ns /\ Len(s.names) = Cardinality(ns)
       /\ Set(s.orgs) = {Org(r.url) \o ":" \o r.name : r \in Set(c.repos)} /\ Len(s.orgs) = Len(s.names)
       /\ \A i \in 1..Len(s.answers) :
            LET a == s.answers[i] IN
            IF a.name \in ns
            THEN a.status = 200 /\ a.values = e.weights[a.name]
                 /\ a.owner = Org((CHOOSE r \in Set(c.repos) : r.name = a.name).url)
            ELSE a.status = 500
  \* Nothing is served otherwise: the program ends with an error that it names.
  ELSE ~s.up /\ s.status # 0 /\ s.said
=============================================================================
