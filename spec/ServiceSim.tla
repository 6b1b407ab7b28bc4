----------------------------- MODULE ServiceSim -----------------------------
(* Random histories of requests and of changes to the remotes, for the real    *)
(* web service.                                                                *)
EXTENDS Service, Json

CONSTANTS Repos, MaxLen, Burst,   \* how many requests run at the same time
          Flawed,                 \* per cent of requests that are flawed
          Faults,                 \* faults that can be injected
          Lists                   \* histories of lists of branches and tags
VARIABLES n,      \* commits of every repository
          refs,   \* branches of every repository
          asked,  \* questions so far
          out, done
vars == <<n, refs, asked, out, done>>

One(S) == {RandomElement(S)}
Pick(k) == RandomElement(1..100) <= k
Branches == {"main", "dev", "feat/x", "b1", "b2", "b3", "b4", "docs", "w.rs"}
FlawKinds == {"missing:old", "missing:new", "missing:repo", "missing:path_pattern", "missing:ignore_errors", "missing:threshold",
          "missing:unit", "missing:method", "threshold", "unit", "method", "ignore_errors", "git_pull", "repo", "pallet",
          "extrinsic", "glob", "dots", "unknown old", "unknown new", "option old", "option new", "refspec old", "refspec new", "garbage",
              "nul old", "nul new"}

Init == /\ n = [k \in Repos |-> 2]
        /\ refs = [k \in Repos |-> [b \in {"main", "dev", "b1", "b2", "b3", "b4"} |-> IF b \in {"dev", "b2"} THEN 1 ELSE 2]]
        /\ asked = <<>> /\ out = <<>> /\ done = FALSE

RandomRef(k) ==
  LET live == {b \in DOMAIN refs[k] : refs[k][b] # 0} IN
  IF Pick(85) THEN Ref("name", RandomElement(IF Pick(95) THEN live ELSE Branches), 0) ELSE Ref("hash", "", RandomElement(1..2))
Files == {"w.rs", "docs/x.rs"}
RandomQuestion ==
  LET k == RandomElement(Repos) IN
  [repo |-> k, old |-> RandomRef(k), new |-> RandomRef(k),
   pat |-> RandomElement(Patterns), meth |-> IF Pick(70) THEN "base" ELSE RandomElement({"exact-asymptotic", "asymptotic"}),
   unit |-> IF Pick(70) THEN "time" ELSE "proof", thr |-> IF Pick(60) THEN 0 ELSE RandomElement({7, 23, 7, 23, 256, 65543}),
   pal |-> IF Pick(70) THEN Files ELSE RandomElement({{"w.rs"}, {"docs/x.rs"}, {}}),
   ext |-> IF Pick(70) THEN {"f", "g"} ELSE RandomElement({{"f"}, {"g"}}),
   ign |-> Pick(60), pull |-> Pick(80), flaw |-> IF Pick(Flawed) THEN RandomElement(FlawKinds) ELSE ""]
Flip(S, x) == RandomElement(S \ {x})
\* A question that differs from q in one parameter.
Twist(q) ==
  LET i == RandomElement(1..11) IN
  CASE i = 1 -> [q EXCEPT !.old = RandomRef(q.repo)]
    [] i = 2 -> [q EXCEPT !.new = RandomRef(q.repo)]
    [] i = 3 -> [q EXCEPT !.pat = Flip(Patterns, @)]
    [] i = 4 -> [q EXCEPT !.meth = Flip({"base", "asymptotic", "exact-asymptotic"}, @)]
    [] i = 5 -> [q EXCEPT !.unit = Flip({"time", "proof"}, @)]
    [] i = 6 -> [q EXCEPT !.thr = Flip({0, 7, 23, 256, 65536}, @)]
    [] i = 7 -> [q EXCEPT !.pal = Flip({Files, {"w.rs"}, {"docs/x.rs"}}, @)]
    [] i = 8 -> [q EXCEPT !.ign = ~@]
    [] i = 9 -> [q EXCEPT !.ext = Flip({{"f", "g"}, {"f"}, {"g"}}, @)]
    [] i = 10 /\ Cardinality(Repos) > 1 -> [q EXCEPT !.repo = Flip(Repos, @)]
    [] OTHER -> [q EXCEPT !.pull = ~@]
NextQuestion ==
  IF asked # <<>> /\ Pick(60)
  THEN LET q == asked[RandomElement((IF Len(asked) > 6 THEN Len(asked) - 6 ELSE 1)..Len(asked))] IN
       IF Pick(30) THEN Twist(q) ELSE q
  ELSE RandomQuestion

\* What happens to the branch b of repository k, or to a tag: tags are never changed.
TagNames == {"v1", "v1.0", "a1", "release-7", "t{x}", "nightly/2", "h^"}
ListNames == Branches \cup {"refs/heads/y", "refs/tags/z", "x.y", "{b}", "heads/main", "uml", "a@b", "odd1", "odd2"}
RandomMove ==
  LET k == RandomElement(Repos)
      tag == Lists /\ Pick(30)
      b == IF tag THEN RandomElement(TagNames \ {"h^"})
           ELSE RandomElement(IF Pick(60) THEN DOMAIN refs[k] \ TagNames ELSE IF Lists THEN ListNames ELSE Branches)
      has == b \in DOMAIN refs[k] /\ refs[k][b] # 0
      kind == IF tag THEN (IF b \notin DOMAIN refs[k] THEN RandomElement({"tag", "atag"}) ELSE IF has THEN "deltag" ELSE "none")
              ELSE IF ~has THEN "create" ELSE IF b = "main" THEN "commit"
              ELSE RandomElement({"commit", "commit", "commit", "force", "delete"})
  IN [repo |-> k, b |-> b, kind |-> kind, c |-> RandomElement(1..2)]
MoveState(m, rf, nn) ==
  IF m.kind = "none" THEN [rf |-> rf, nn |-> nn] ELSE
  [rf |-> [rf EXCEPT ![m.repo] = (m.b :> (IF m.kind \in {"delete", "deltag"} THEN 0 ELSE IF m.kind = "commit" THEN nn[m.repo] + 1 ELSE m.c)) @@ @],
   nn |-> IF m.kind = "commit" THEN [nn EXCEPT ![m.repo] = @ + 1] ELSE nn]

Put(e) == out' = Append(out, e)
Ask ==
  \E qs \in One({<<NextQuestion>>}) :
    Put([t |-> "ask", qs |-> qs, moves |-> <<>>, fault |-> IF Faults # {} /\ Pick(25) THEN RandomElement(Faults) ELSE "none", at |-> RandomElement(1..9)])
    /\ asked' = asked \o qs /\ UNCHANGED <<n, refs>>
\* Several requests at once, perhaps while a remote changes.
AskMany ==
  \E k \in One(2..Burst) :
  \E qs \in One({[i \in 1..k |-> NextQuestion]}) :
  \E m \in One({RandomMove}) : \E w \in One({TRUE, FALSE}) :
    /\ Put([t |-> "ask", qs |-> qs, moves |-> IF w THEN <<m>> ELSE <<>>, fault |-> "none", at |-> 0])
    /\ asked' = asked \o qs
    /\ LET S == MoveState(m, refs, n) IN IF w THEN refs' = S.rf /\ n' = S.nn ELSE UNCHANGED <<n, refs>>
MoveOne == \E m \in One({RandomMove}) :
             /\ Put([t |-> "move", m |-> m]) /\ LET S == MoveState(m, refs, n) IN refs' = S.rf /\ n' = S.nn
             /\ UNCHANGED asked
Tick == \E d \in One({1000, 1000, 60000, 200000, 300000, 590000, 599000, 600000, 601000, 3600000}) :
          Put([t |-> "tick", d |-> d]) /\ UNCHANGED <<n, refs, asked>>
List == \E k \in One(Repos), f \in One({0, 1, 2}), x \in One({"none", "down", "pre", "post", "noise"}), w \in One(1..12) :
          Put([t |-> "list", repo |-> k, fetch |-> f, at |-> RandomElement(1..2), fault |-> IF Faults = {} \/ Pick(70) THEN "none" ELSE x,
               flaw |-> IF w = 1 THEN "repo" ELSE IF w = 2 THEN "missing" ELSE IF w = 3 THEN "fetch" ELSE ""])
          /\ UNCHANGED <<n, refs, asked>>
Next ==
  IF Len(out) = MaxLen
  THEN ~done /\ done' = PrintT("@@" \o ToJson(out)) /\ UNCHANGED <<n, refs, asked, out>>
  ELSE /\ \E k \in One(1..20) :
            CASE Lists /\ k <= 10 -> MoveOne
              [] Lists -> List
              [] k <= 9  -> IF Burst > 1 THEN AskMany ELSE Ask
              [] k <= 12 -> Ask
              [] k <= 15 -> MoveOne
              [] k <= 18 -> Tick
              [] OTHER   -> List
       /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
=============================================================================
