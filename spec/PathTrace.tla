----------------------------- MODULE PathTrace -----------------------------
(* Which files of a repository a path pattern selects (property C19), and the *)
(* validation of recorded comparisons against that.  Patterns and names are    *)
(* sequences of code points.  An event is                                      *)
(*   pat    the pattern, comma-separated globs                                 *)
(*   paths  the visible paths of both trees, as sequences of names             *)
(*   old, new  the files of both trees: [i, inside, ok, v] with the index of   *)
(*          the path, whether it lies in the repository after following links, *)
(*          whether it can be parsed, and its weight                           *)
(*   max, ignore  the limit and whether unparsable files are ignored           *)
(*   res    [err, rows] with rows [i, old, new]: path and the weights, 0 for   *)
(*          none                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS ChunkSize, Checks
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

Slash == 47
Comma == 44
Star == 42
Quest == 63
Open == 91
Close == 93
Bang == 33
Minus == 45
Dot == 46
ModRs == <<109, 111, 100, 46, 114, 115>>

RECURSIVE SplitAt(_, _, _, _)
\* The parts of s between separators, starting at i with the part begun so far.
SplitAt(s, sep, i, part) ==
  IF i > Len(s) THEN <<part>>
  ELSE IF s[i] = sep THEN <<part>> \o SplitAt(s, sep, i + 1, <<>>)
  ELSE SplitAt(s, sep, i + 1, Append(part, s[i]))
Split(s, sep) == SplitAt(s, sep, 1, <<>>)

---------------------------------------------------------------------------
(* One component of a glob as tokens [k, c, neg, rs]: a character, "?", "*" or *)
(* a set of ranges.                                                            *)
Tok(k, c, neg, rs) == [k |-> k, c |-> c, neg |-> neg, rs |-> rs]
Bad == <<Tok("bad", 0, FALSE, {})>>

\* First position of "]" in s at or after i, 0 if there is none.
CloseFrom(s, i) == LET P == {j \in i..Len(s) : s[j] = Close} IN
                   IF P = {} THEN 0 ELSE CHOOSE j \in P : \A x \in P : j <= x
RECURSIVE Ranges(_, _, _)
Ranges(s, i, j) ==
  IF i > j THEN {}
  ELSE IF i + 2 <= j /\ s[i + 1] = Minus THEN {<<s[i], s[i + 2]>>} \cup Ranges(s, i + 3, j)
  ELSE {<<s[i], s[i]>>} \cup Ranges(s, i + 1, j)

RECURSIVE Tokens(_, _)
Tokens(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = Quest THEN <<Tok("any", 0, FALSE, {})>> \o Tokens(s, i + 1)
  ELSE IF s[i] = Star THEN
    IF i < Len(s) /\ s[i + 1] = Star THEN Bad ELSE <<Tok("star", 0, FALSE, {})>> \o Tokens(s, i + 1)
  ELSE IF s[i] = Open THEN
    LET neg == i < Len(s) /\ s[i + 1] = Bang
        b == IF neg THEN i + 2 ELSE i + 1         \* first member
        e == CloseFrom(s, b + 1)                  \* a first "]" is a member
    IN IF e = 0 THEN Bad ELSE <<Tok("set", 0, neg, Ranges(s, b, e - 1))>> \o Tokens(s, e + 1)
  ELSE <<Tok("char", s[i], FALSE, {})>> \o Tokens(s, i + 1)

IsRec(s) == s = <<Star, Star>>
CompOk(s) == IsRec(s) \/ \A i \in 1..Len(Tokens(s, 1)) : Tokens(s, 1)[i].k # "bad"
GlobOk(comps) == \A i \in 1..Len(comps) : CompOk(comps[i])

RECURSIVE MatchToks(_, _, _, _)
MatchToks(ts, i, n, j) ==
  IF i > Len(ts) THEN j > Len(n)
  ELSE LET t == ts[i] IN
    CASE t.k = "star" -> MatchToks(ts, i + 1, n, j) \/ (j <= Len(n) /\ MatchToks(ts, i, n, j + 1))
      [] j > Len(n) -> FALSE
      [] t.k = "any" -> MatchToks(ts, i + 1, n, j + 1)
      [] t.k = "char" -> n[j] = t.c /\ MatchToks(ts, i + 1, n, j + 1)
      [] t.k = "set" -> ((\E r \in t.rs : r[1] <= n[j] /\ n[j] <= r[2]) # t.neg) /\ MatchToks(ts, i + 1, n, j + 1)
      [] OTHER -> FALSE
MatchComp(s, n) == MatchToks(Tokens(s, 1), 1, n, 1)

RECURSIVE Match(_, _, _, _, _)
(* The components from i on match the path from j on.  dots: a component like  *)
(* ".*" can be the folder itself, and so can an empty one as in "a//b", or     *)
(* "." after "**".                                                             *)
Match(cs, i, v, j, dots) ==
  IF i > Len(cs) THEN j > Len(v)
  ELSE LET c == cs[i]
           last == i = Len(cs) IN
    IF IsRec(c) THEN ~last /\ (Match(cs, i + 1, v, j, dots) \/ (j < Len(v) /\ Match(cs, i, v, j + 1, dots)))
    ELSE IF c = <<>> THEN dots /\ ~last /\ Match(cs, i + 1, v, j, dots)
    ELSE IF c = <<Dot>> THEN ~last /\ (dots \/ i = 1 \/ ~IsRec(cs[i - 1])) /\ Match(cs, i + 1, v, j, dots)
    ELSE \/ j <= Len(v) /\ MatchComp(c, v[j]) /\ Match(cs, i + 1, v, j + 1, dots)
         \/ dots /\ ~last /\ c[1] = Dot /\ MatchComp(c, <<Dot>>) /\ Match(cs, i + 1, v, j, dots)

---------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
HasDotDot(s) == \E i \in 1..(Len(s) - 1) : s[i] = Dot /\ s[i + 1] = Dot

\* What one glob selects.
Hits(tree, paths, comps, dots) ==
  {f \in tree : LET v == paths[f.i] IN f.inside /\ v[Len(v)] # ModRs /\ Match(comps, 1, v, 1, dots)}

RECURSIVE Total(_, _)
Total(hits, k) == IF k = 0 THEN 0 ELSE Cardinality(hits[k]) + Total(hits, k - 1)

\* [must, may, valid, total]: the files that have to be and those that may be compared.
Select(tree, e) ==
  LET globs == Split(e.pat, Comma)
      comps == [k \in 1..Len(globs) |-> Split(globs[k], Slash)]
      valid == \A k \in 1..Len(comps) : GlobOk(comps[k])
      hit(dots) == [k \in 1..Len(comps) |-> Hits(tree, e.paths, comps[k], dots)]
      may == IF valid THEN hit(TRUE) ELSE <<>>
  IN [valid |-> valid /\ ~HasDotDot(e.pat),
      must |-> IF valid THEN UNION Range(hit(FALSE)) ELSE {},
      may |-> UNION Range(may), total |-> Total(may, Len(may))]

Unreadable(files, e) == ~e.ignore /\ \E f \in files : ~f.ok
Parsed(files) == {<<f.i, f.v>> : f \in {g \in files : g.ok}}

Ok(e) ==
  LET o == Select(Range(e.old), e)
      n == Select(Range(e.new), e)
      rows == Range(e.res.rows)
      os == {<<r[1], r[2]>> : r \in {x \in rows : x[2] # 0}}
      ns == {<<r[1], r[3]>> : r \in {x \in rows : x[3] # 0}}
      mustFail == \/ ~o.valid
                  \/ Cardinality(o.must) > e.max \/ Cardinality(n.must) > e.max
                  \/ Unreadable(o.must, e) \/ Unreadable(n.must, e)
      mayFail == \/ mustFail
                 \/ o.total > e.max \/ n.total > e.max
                 \/ Unreadable(o.may, e) \/ Unreadable(n.may, e)
  IN IF e.res.err THEN mayFail
     ELSE /\ ~mustFail
          /\ Parsed(o.must) \subseteq os /\ os \subseteq Parsed(o.may)
          /\ Parsed(n.must) \subseteq ns /\ ns \subseteq Parsed(n.may)
          /\ Cardinality({r[1] : r \in rows}) = Len(e.res.rows)

(* Errors stay contained (property C12): as above, when nothing but files that *)
(* cannot be read or parsed is in the way; the error then names one of them.   *)
Contained(e) ==
  LET o == Select(Range(e.old), e)
      n == Select(Range(e.new), e)
  IN (o.valid /\ o.total <= e.max /\ n.total <= e.max) =>
       /\ Ok(e)
       /\ e.res.err => \E f \in o.may \cup n.may : ~f.ok /\ f.i \in Range(e.res.named)

VARIABLES l, at, bad
vars == <<l, at, bad>>
Init == \E i \in 1..N : i % ChunkSize = 1 % ChunkSize /\ l = i /\ at = i /\ bad = {}
Judge == /\ l # 0
         /\ bad' = (IF "C19" \in Checks /\ ~Ok(Trace[l]) THEN {"C19"} ELSE {})
                   \cup (IF "C12" \in Checks /\ ~Contained(Trace[l]) THEN {"C12"} ELSE {})
         /\ at' = l
         /\ l' = IF l < N /\ l % ChunkSize # 0 THEN l + 1 ELSE 0
Done == l = 0 /\ UNCHANGED vars
Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
Accepted_ == bad = {}
Walked == TRUE
=============================================================================
