-------------------------------- MODULE Small --------------------------------
(* Small universes of inputs of the pipeline, enumerated completely.  Two      *)
(* things are done with each of them:                                          *)
(*  - theorems about the specification itself are checked on every member, so  *)
(*    that what the rows are judged by is consistent and strong enough;        *)
(*  - all members are written to a file, to be replayed on the real code.      *)
(*                                                                            *)
(* Part   members                                                              *)
(* pairs  all pairs of formulas built from a set of parts                      *)
(* ranges all combinations of annotations of two components, old and new       *)
(* rows   all assignments of a kind of row to a few keys, thresholds, subsets  *)
(* blocks all sequences of items of a file                                     *)
(* docs   all sequences of doc lines of a function                             *)
EXTENDS Swc, Json, IOUtils

CONSTANTS Part, Level

---------------------------------------------------------------------------
(* Syntax                                                                      *)
L(n) == [k |-> "lit", v |-> BFromNat(n)]
Lb(b) == [k |-> "lit", v |-> b]
Var(n) == [k |-> "path", n |-> n]
M(n, r, a) == [k |-> "m", n |-> n, r |-> r, a |-> a]
Cl(s, a) == [k |-> "call", s |-> s, a |-> a]
Db == Cl(<<"T", "DbWeight", "get">>, <<>>)
Parts(a, b) == Cl(<<"Weight", "from_parts">>, <<a, b>>)
RefT(a) == Cl(<<"Weight", "from_ref_time">>, <<a>>)
Proof(a) == Cl(<<"Weight", "from_proof_size">>, <<a>>)
Zero == Cl(<<"Weight", "zero">>, <<>>)
Rd(a) == M("reads", Db, <<a>>)
Wr(a) == M("writes", Db, <<a>>)
Add(a, b) == M("saturating_add", a, <<b>>)
Mul(a, b) == M("saturating_mul", a, <<b>>)
Into(a) == M("into", a, <<>>)
X == Var("x")
Y == Var("y")

Ranged(c, lo, hi) == [k |-> "range", c |-> c, lo |-> BFromNat(lo), hi |-> BFromNat(hi)]
NoDoc == [k |-> "other"]
Expr(e) == [k |-> "expr", e |-> e]
Func(n, e, docs) == [name |-> n, ret |-> "Weight", stmts |-> <<Expr(e)>>, docs |-> docs]
Impl(self, fns) == [k |-> "impl", self |-> self, fns |-> fns]
FileOf(fns) == [syntax |-> TRUE, items |-> <<Impl("WeightInfo", fns)>>]
All == [k |-> "all"]
Event(old, new, m, dim, thr, has, subset) ==
  [op |-> "compare", old |-> old, new |-> new, method |-> m, unit |-> dim, thr |-> thr, hasSubset |-> has, subset |-> subset,
   palf |-> All, extf |-> All]
Side(fns) == IF fns = <<>> THEN <<>> ELSE <<[pallet |-> "w.rs", f |-> FileOf(fns)]>>

MethodSeq == <<"base", "guess-worst", "exact-worst", "asymptotic", "exact-asymptotic">>
DimSeq == <<"time", "proof">>

\* The concatenation of all sequences of a sequence.
RECURSIVE FlatIn(_, _, _)
FlatIn(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                    ELSE FlatIn(ss, i, (i + j) \div 2) \o FlatIn(ss, ((i + j) \div 2) + 1, j)
Flat(ss) == FlatIn(ss, 1, Len(ss))
\* The members of a set in some order.
SE == INSTANCE SequencesExt
SetToSeq(S) == SE!SetToSeq(S)

\* All f(a, b) as a sequence.
Cross(A, B, f(_, _)) == [i \in 1..(Len(A) * Len(B)) |-> f(A[((i - 1) \div Len(B)) + 1], B[((i - 1) % Len(B)) + 1])]

---------------------------------------------------------------------------
(* pairs                                                                       *)
Base1 == <<Parts(L(0), L(0)), Parts(L(1), L(2)), Parts(L(2), L(1)), RefT(L(3)), Proof(L(3)), Zero, Rd(L(1)), Wr(L(2)),
           Rd(X), RefT(X), Proof(X), Parts(X, Y), X, Parts(Lb(U128Max), L(1)), RefT(Add(L(2), Mul(X, Y)))>>
Slopes == <<Mul(Parts(L(1), L(2)), Into(X)), Mul(Parts(L(2), L(1)), Into(Y)), Mul(Parts(L(3), L(0)), X), Mul(Rd(L(1)), Y)>>
Slopes2 == Slopes \o <<Mul(Mul(Parts(L(1), L(1)), X), Y), Mul(Mul(Proof(L(2)), X), X), Mul(Wr(X), Y), Mul(Parts(X, L(1)), Y),
                       Mul(RefT(Lb(U128Max)), X)>>
Legacy == <<L(7), Add(L(7), Mul(L(2), X)), Add(RefT(L(7)), Mul(RefT(L(2)), X)), Add(L(7), Rd(L(1))), Mul(L(2), Mul(X, Y)),
            M("ref_time", RefT(L(4)), <<>>)>>
Sums == Cross(<<Parts(L(1), L(2)), Proof(L(3)), Rd(L(1)), Zero>>, Slopes, Add)
Sums2 == Cross(Base1, Slopes2, Add) \o Cross(Slopes2, Slopes2, Add) \o Cross(SubSeq(Base1, 2, 8), SubSeq(Base1, 2, 8), Add)
Formulas1 == Base1 \o Slopes \o Legacy \o Sums
Formulas == Formulas1 \o (IF Level > 1 THEN Sums2 ELSE <<>>)
NF == Len(Formulas)
\* All pairs of the formulas of level 1, and a tenth of the other ones.
Partners(j) == SelectSeq([i \in 1..NF |-> i],
                         LAMBDA i : (i <= Len(Formulas1) /\ j <= Len(Formulas1)) \/ (i * 7 + j) % 10 = 0)

PairDocs == <<Ranged("x", 0, 3), Ranged("y", 1, 2)>>
Ext(e) == [file |-> "w.rs", name |-> "f", e |-> e, ranges |-> RangesOf(PairDocs)]
FName(i) == "f" \o ToString(1000 + i)
\* One member: all formulas against formula j.
PairEvent(j, mi, di) ==
  LET q == Partners(j)
      os == [n \in 1..Len(q) |-> Func(FName(q[n]), Formulas[q[n]], PairDocs)]
      ns == [n \in 1..Len(q) |-> Func(FName(q[n]), Formulas[j], PairDocs)]
  IN Event(Side(os), Side(ns), MethodSeq[mi], DimSeq[di], BZero, FALSE, <<>>)
Pairs == Flat([j \in 1..NF |-> Flat([mi \in 1..5 |-> [di \in 1..2 |-> PairEvent(j, mi, di)]])])

Pt(p) == [c \in {"x", "y", READ, WRITE} |-> IF c = "x" THEN BFromNat(p[1]) ELSE IF c = "y" THEN BFromNat(p[2]) ELSE BZero]
Box == (0..3) \X (1..2)

\* Nothing but the literals of the proof part differs, and the reverse.
RECURSIVE Blank(_, _)
Blank(e, dim) ==
  CASE e.k \in {"paren", "cast"} -> [e EXCEPT !.e = Blank(@, dim)]
    [] e.k = "call" ->
         (CASE Fn(e) = "from_parts" -> IF dim = "time" THEN [e EXCEPT !.a[2] = L(9)] ELSE [e EXCEPT !.a[1] = L(9)]
            [] Fn(e) = "from_proof_size" -> IF dim = "time" THEN [e EXCEPT !.a[1] = L(9)] ELSE e
            [] Fn(e) = "from_ref_time" -> IF dim = "proof" THEN [e EXCEPT !.a[1] = L(9)] ELSE e
            [] OTHER -> e)
    [] e.k = "m" /\ e.n \in {"saturating_add", "saturating_mul"} -> [e EXCEPT !.r = Blank(@, dim), !.a[1] = Blank(@, dim)]
    [] e.k = "m" /\ e.n = "into" -> [e EXCEPT !.r = Blank(@, dim)]
    [] OTHER -> e

PairTheorems(i, j) ==
  LET f == Formulas[i]
      g == Formulas[j]
      p == [old |-> <<Ext(f)>>, new |-> <<Ext(g)>>] IN
  /\ Accepted(f)
  /\ \A dim \in {"time", "proof"} :
       \* greater component values never give a smaller weight (so base <= asymptotic)
       /\ \A a, b \in Box : (a[1] <= b[1] /\ a[2] <= b[2]) => BLeq(Den(f, dim, Pt(a)), Den(f, dim, Pt(b)))
       \* the other dimension does not matter
       /\ IsC(f) => \A a \in Box : Den(Blank(f, dim), dim, Pt(a)) = Den(f, dim, Pt(a))
       \* the two sides of the classification do not contradict each other
       /\ ~(MustBeSame(p, dim) /\ DiffersOn(p, dim))
       \* ... and leave no doubt here: what is the same everywhere in the box and as a formula
       /\ i = j => MustBeSame(p, dim)
       \* of formulas that are linear in each component, no point of the ranges exceeds all corners
       /\ (Linear(p) /\ \A a \in Box : Unsaturated(p, dim, Pt(a))) =>
            \A a \in Box : \E c \in Box :
               /\ c[1] \in {0, 3}
               /\ ~Exceeds(Den(f, dim, Pt(a)), Den(g, dim, Pt(a)), Den(f, dim, Pt(c)), Den(g, dim, Pt(c)))
       \* "exceeds" is irreflexive and asymmetric
       /\ \A a, b \in Box :
            LET E(u, v) == Exceeds(Den(f, dim, Pt(u)), Den(g, dim, Pt(u)), Den(f, dim, Pt(v)), Den(g, dim, Pt(v))) IN
            /\ ~E(a, a)
            /\ ~(E(a, b) /\ E(b, a))
       \* exchanging old and new reverses it (no greater increase, no greater decrease)
       /\ MustBeSame(p, dim) = MustBeSame([old |-> p.new, new |-> p.old], dim)

---------------------------------------------------------------------------
(* ranges                                                                      *)
Notes == <<<<>>, <<<<0, 3>>>>, <<<<2, 2>>>>, <<<<1, 5>>>>, <<<<0, 100>>>>>>
NoteDocs(c, n) == IF n = <<>> THEN <<>> ELSE <<Ranged(c, n[1][1], n[1][2])>>
NN == Len(Notes)
RangeF == Add(Parts(L(10), L(20)), Add(Mul(Parts(L(3), L(1)), X), Mul(Parts(L(1), L(3)), Y)))
RangeG == Add(Parts(L(20), L(10)), Add(Mul(Parts(L(1), L(3)), X), Mul(Parts(L(2), L(2)), Y)))
RangeH == Add(Parts(L(20), L(10)), Mul(Parts(L(1), L(3)), X))
\* The notes of x old, x new, y old and y new.
RangeIdx == {q \in (1..NN) \X (1..NN) \X (1..NN) \X (1..NN) : Level > 1 \/ (q[3] \in {1, 2, 4} /\ q[4] \in {1, 2})}
RangeEvent(mi, di, h) ==
  LET qs == SetToSeq(RangeIdx) IN
  Event(Side([i \in 1..Len(qs) |-> Func(FName(i), RangeF, NoteDocs("x", Notes[qs[i][1]]) \o NoteDocs("y", Notes[qs[i][3]]))]),
        Side([i \in 1..Len(qs) |-> Func(FName(i), h, NoteDocs("x", Notes[qs[i][2]]) \o NoteDocs("y", Notes[qs[i][4]]))]),
        MethodSeq[mi], DimSeq[di], BZero, FALSE, <<>>)
RangesAll == Flat([mi \in 1..5 |-> Flat([di \in 1..2 |-> <<RangeEvent(mi, di, RangeG), RangeEvent(mi, di, RangeH)>>])])
RangePair(q) == [old |-> <<[file |-> "w", name |-> "f", e |-> RangeF, ranges |-> RangesOf(NoteDocs("x", Notes[q[1]]) \o NoteDocs("y", Notes[q[3]]))]>>,
                 new |-> <<[file |-> "w", name |-> "f", e |-> RangeG, ranges |-> RangesOf(NoteDocs("x", Notes[q[2]]) \o NoteDocs("y", Notes[q[4]]))]>>]
Swapd(p) == [old |-> p.new, new |-> p.old]
RangeTheorems(q) ==
  LET p == RangePair(q) IN
  \A m \in Methods :
    /\ Fails(p, m) = Fails(Swapd(p), m)
    /\ ~Exact(m) => ~Fails(p, m)
    /\ \A c \in {"x", "y"} :
         /\ Choices(p, m, c) = Choices(Swapd(p), m, c)
         /\ ~Fails(p, m) => Cardinality(Choices(p, m, c)) \in (IF Worst(m) THEN {1, 2} ELSE {1})
         \* where the exact methods succeed, they agree with the guessing ones
         /\ (Exact(m) /\ ~Fails(p, m)) =>
              Choices(p, m, c) = Choices(p, IF m = "exact-worst" THEN "guess-worst" ELSE "asymptotic", c)

---------------------------------------------------------------------------
(* rows                                                                        *)
KindSeq == <<"absent", "old", "new", "same", "up10", "up5", "down5", "inf", "fail", "warn">>
\* old and new formula of a kind of row
KindOld(kd) == CASE kd \in {"absent", "new"} -> <<>>
                 [] kd = "inf" -> <<Parts(L(0), L(0))>>
                 [] kd = "fail" -> <<Add(Parts(L(1), L(1)), Mul(Parts(L(1), L(1)), X))>>
                 [] OTHER -> <<Parts(L(2000), L(2000))>>
KindNew(kd) == CASE kd \in {"absent", "old"} -> <<>>
                 [] kd = "up10" -> <<Parts(L(2200), L(2200))>>
                 [] kd = "up5" -> <<Parts(L(2100), L(2100))>>
                 [] kd = "down5" -> <<Parts(L(1900), L(1900))>>
                 [] kd = "warn" -> <<Add(Parts(L(2000), L(2000)), Rd(L(1001)))>>
                 [] kd = "fail" -> <<Parts(L(1), L(1))>>
                 [] OTHER -> <<Parts(L(2000), L(2000))>>
RowKeys == IF Level > 1 THEN 4 ELSE 3
RowIdx == SetToSeq([1..RowKeys -> 1..Len(KindSeq)])
Opt(n, o) == IF o = <<>> THEN <<>> ELSE <<Func(n, o[1], <<>>)>>
Five == <<0, 0, 0, 5>>        \* 5 points, in units of 10^-12
FiveMore == <<625, 4414, 2, 5>>    \* a little more, 5 + 2^-12
ThrSeq == <<BZero, Five, FiveMore>>
SubSets == <<<<>>, <<<<>>>>, <<<<"changed">>>>, <<<<"added", "unchanged">>>>, <<<<"removed", "changed">>>>>>
RowEvent(q, t, s) ==
  Event(Side(Flat([i \in 1..RowKeys |-> Opt("k" \o ToString(i), KindOld(KindSeq[q[i]]))])),
        Side(Flat([i \in 1..RowKeys |-> Opt("k" \o ToString(i), KindNew(KindSeq[q[i]]))])),
        "exact-worst", "time", ThrSeq[t], s # <<>>, IF s = <<>> THEN <<>> ELSE s[1])
\* Each assignment with one threshold and subset (with all of them on level 2).
Rows == IF Level > 1
        THEN Flat([i \in 1..Len(RowIdx) |-> [j \in 1..2 |-> RowEvent(RowIdx[i], 1 + ((i + j) % 3), SubSets[1 + ((i * 2 + j) % 5)])]])
        ELSE [i \in 1..Len(RowIdx) |-> RowEvent(RowIdx[i], 1 + (i % 3), SubSets[1 + ((i \div 3) % 5)])]

Pct(neg, u) == [cls |-> "fin", neg |-> neg, u |-> u]
Row(kd, n) ==
  [name |-> n, kind |-> IF kd = "fail" THEN "failed" ELSE "ok",
   change |-> CASE kd = "old" -> "removed" [] kd = "new" -> "added" [] kd = "same" -> "unchanged" [] OTHER -> "changed",
   pct |-> CASE kd = "up10" -> Pct(FALSE, <<0, 0, 0, 10>>) [] kd = "up5" -> Pct(FALSE, Five) [] kd = "down5" -> Pct(TRUE, Five)
             [] kd = "warn" -> Pct(FALSE, <<0, 0, 0, 1251, 5>>)
             [] kd = "inf" -> [cls |-> "+inf", neg |-> FALSE, u |-> <<>>] [] OTHER -> Pct(FALSE, <<>>)]
RowsOf(q) == LET S == SelectSeq([i \in 1..RowKeys |-> i], LAMBDA i : KindSeq[q[i]] # "absent")
             IN [j \in 1..Len(S) |-> Row(KindSeq[q[S[j]]], "k" \o ToString(S[j]))]
RowTheorems(q) ==
  LET rows == RowsOf(q)
      n == Len(rows)
      perms == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
      ok == {f \in perms : SortViol(rows, [i \in 1..n |-> i], f, f) = {}}
      Filter(rs, t, s) == SelectSeq(rs, LAMBDA r : Kept(r, ThrSeq[t], s # <<>>, IF s = <<>> THEN <<>> ELSE s[1]))
  IN \* the order is determined completely
     /\ Cardinality(ok) = 1
     /\ LET f == CHOOSE f \in ok : TRUE
            sorted == [i \in 1..n |-> rows[f[i]]] IN
        \A t \in 1..3 : \A si \in 1..Len(SubSets) :
          LET kept == Filter(rows, t, SubSets[si]) IN
          \* filtering and sorting commute, filtering is idempotent and monotone
          /\ LET m == Len(kept)
                 g == CHOOSE g \in {g \in [1..m -> 1..m] : \A i, j \in 1..m : i # j => g[i] # g[j]} :
                          SortViol(kept, [i \in 1..m |-> i], g, g) = {}
             IN Filter(sorted, t, SubSets[si]) = [i \in 1..m |-> kept[g[i]]]
          /\ Filter(kept, t, SubSets[si]) = kept
          /\ t < 3 => \A i \in 1..n : Kept(rows[i], ThrSeq[t + 1], FALSE, <<>>) => Kept(rows[i], ThrSeq[t], FALSE, <<>>)

---------------------------------------------------------------------------
(* blocks                                                                      *)
Good == Func("good", Parts(L(1), L(1)), <<>>)
Bad == [Func("bad", Parts(L(1), L(1)), <<>>) EXCEPT !.stmts = <<[k |-> "other"]>>]
NoRet == [Func("noret", Parts(L(1), L(1)), <<>>) EXCEPT !.ret = ""]
Other2 == Func("other", L(5), <<Ranged("x", 1, 2)>>)
FnLists == <<<<>>, <<Good>>, <<Bad>>, <<Good, Bad>>, <<NoRet, Good>>, <<Other2, Good>>>>
Selfs == <<"WeightInfo", "SubstrateWeight", "()", "othertype">>
ItemSeq == <<[k |-> "other"]>> \o Cross(Selfs, FnLists, Impl)
NI == Len(ItemSeq)
\* Numbers the sequences of at most three items.
BlockSet == {<<>>} \cup {<<a>> : a \in 1..NI} \cup {<<a, b>> : a, b \in 1..NI}
            \cup (IF Level > 1 THEN {<<a, b, c>> : a, b, c \in 1..NI} ELSE {})
BlockFile(s) == [syntax |-> TRUE, items |-> [i \in 1..Len(s) |-> ItemSeq[s[i]]]]
ParseEvent(f) == [op |-> "parse", pallet |-> "p.rs", f |-> f]
Blocks == LET q == SetToSeq(BlockSet) IN [i \in 1..Len(q) |-> ParseEvent(BlockFile(q[i]))]
BlockTheorems(s) ==
  LET f == BlockFile(s) IN
  \* appending items never changes what is extracted, and unusable items can be left out
  /\ ParsesOk(f) => \A a \in 1..NI : Extract("p", BlockFile(Append(s, a))) = Extract("p", f)
  /\ Extract("p", f) = Extract("p", [f EXCEPT !.items = SelectSeq(@, Usable)])
  /\ ParsesOk(f) = (Extract("p", f) # <<>>)

---------------------------------------------------------------------------
(* docs                                                                        *)
DocSeq == <<NoDoc, Ranged("x", 0, 1), Ranged("x", 2, 5), Ranged("x_", 7, 7), Ranged("xy", 1, 1), Ranged("x", 5, 4),
            [Ranged("y", 1, 1) EXCEPT !.hi = U32Max], [Ranged("y", 1, 1) EXCEPT !.hi = BAdd(U32Max, BOne)]>>
ND == Len(DocSeq)
DocSet == {<<>>} \cup {<<a>> : a \in 1..ND} \cup {<<a, b>> : a, b \in 1..ND} \cup {<<a, b, c>> : a, b, c \in 1..ND}
          \cup (IF Level > 1 THEN {<<a, b, c, d>> : a, b, c, d \in 1..ND} ELSE {})
DocFile(s) == FileOf(<<Func("f", Parts(L(1), X), [i \in 1..Len(s) |-> DocSeq[s[i]]]), Func("g", Parts(L(1), X), <<>>)>>)
Docs == LET q == SetToSeq(DocSet) IN [i \in 1..Len(q) |-> ParseEvent(DocFile(q[i]))]
DocTheorems(s) ==
  LET docs == [i \in 1..Len(s) |-> DocSeq[s[i]]] IN
  /\ (\A i \in 1..Len(docs) : GoodDoc(docs[i])) = ParsesOk(DocFile(s))
  /\ ParsesOk(DocFile(s)) =>
       LET E == Extract("p", DocFile(s)) IN
       /\ Len(E) = 2 /\ DOMAIN E[2].ranges = {}
       /\ \A c \in DOMAIN E[1].ranges : BLeq(E[1].ranges[c][1], E[1].ranges[c][2])
       \* the last annotation counts
       /\ \A d \in {2, 3, 4} : RangesOf(Append(docs, DocSeq[d]))["x"] = <<DocSeq[d].lo, DocSeq[d].hi>>

---------------------------------------------------------------------------
CONSTANT Prove      \* whether the theorems are checked, on all members
Members == IF ~Prove THEN {<<1, 1>>} ELSE CASE Part = "pairs" -> (1..NF) \X (1..NF)
             [] Part = "ranges" -> RangeIdx
             [] Part = "rows" -> [1..RowKeys -> 1..Len(KindSeq)]
             [] Part = "blocks" -> BlockSet
             [] Part = "docs" -> DocSet
Scenarios == CASE Part = "pairs" -> Pairs
               [] Part = "ranges" -> RangesAll
               [] Part = "rows" -> Rows
               [] Part = "blocks" -> Blocks
               [] Part = "docs" -> Docs
VARIABLES member
Init == member \in Members
Next == UNCHANGED member
Spec == Init /\ [][Next]_member
Theorems == Prove => CASE Part = "pairs" -> PairTheorems(member[1], member[2])
              [] Part = "ranges" -> RangeTheorems(member)
              [] Part = "rows" -> RowTheorems(member)
              [] Part = "blocks" -> BlockTheorems(member)
              [] Part = "docs" -> DocTheorems(member)
Written == ndJsonSerialize(IOEnv.OUT, Scenarios)
ASSUME IOEnv.OUT = "" \/ Written
=============================================================================
