------------------------------- MODULE Compare -------------------------------
(* Comparing two versions of weight formulas: evaluation methods, component    *)
(* values, rows, filtering and ordering.  The operators here are relations     *)
(* between the inputs of a step and an outcome: each gives, per property, a    *)
(* condition that an outcome must meet.                                        *)
EXTENDS WeightFile, Integers

Methods == {"base", "guess-worst", "exact-worst", "asymptotic", "exact-asymptotic"}
Exact(m) == m \in {"exact-worst", "exact-asymptotic"}
Worst(m) == m \in {"guess-worst", "exact-worst"}

Some(o) == o # <<>>           \* an optional value is a sequence of length 0 or 1
Get(o)  == o[1]

---------------------------------------------------------------------------
(* Component values.  A pair is [old |-> optional ext, new |-> optional ext].  *)

PairComps(p) == (IF Some(p.old) THEN Comps(Get(p.old).e) ELSE {})
                \cup (IF Some(p.new) THEN Comps(Get(p.new).e) ELSE {})

RangeIn(o, c) == IF Some(o) /\ NoUnderscore(c) \in DOMAIN Get(o).ranges
                 THEN <<Get(o).ranges[NoUnderscore(c)]>> ELSE <<>>

(* The interval of a component: [ok, lo, hi]; not ok: cannot be determined.    *)
Interval(p, c, exact) ==
  LET a == RangeIn(p.old, c)
      b == RangeIn(p.new, c) IN
  CASE Some(a) /\ Some(b) /\ a # b ->
         [ok |-> ~exact, lo |-> BMin(a[1][1], b[1][1]), hi |-> BMax(a[1][2], b[1][2])]
    [] Some(a) -> [ok |-> TRUE, lo |-> a[1][1], hi |-> a[1][2]]
    [] Some(b) -> [ok |-> TRUE, lo |-> b[1][1], hi |-> b[1][2]]
    [] OTHER   -> [ok |-> ~exact, lo |-> <<>>, hi |-> <<100>>]

TooMany(p) == Cardinality(PairComps(p)) > 16
BadComps(p, m) == {c \in PairComps(p) : ~Interval(p, c, Exact(m)).ok}
Fails(p, m) == TooMany(p) \/ BadComps(p, m) # {}

(* The values that a method may choose for a component.                        *)
Choices(p, m, c) ==
  LET iv == Interval(p, c, Exact(m)) IN
  CASE m = "base" -> {iv.lo}
    [] m \in {"asymptotic", "exact-asymptotic"} -> {iv.hi}
    [] OTHER -> {iv.lo, iv.hi}

(* All corners of the box of component values.                                 *)
Corners(p, m) ==
  LET Cs == PairComps(p)
      V == UNION {Choices(p, m, c) : c \in Cs}
  IN {f \in [Cs -> V] : \A c \in Cs : f[c] \in Choices(p, m, c)}

---------------------------------------------------------------------------
(* Values and relative changes.  A relative increase is compared exactly, as   *)
(* a fraction of natural numbers.                                              *)

ValueOf(o, dim, env) == IF Some(o) THEN Den(Get(o).e, dim, env) ELSE BZero

Ten10 == <<0, 0, 100>>
Ten10p1 == <<1, 0, 100>>
Ten8  == <<0, 0, 1>>
(* The increase from o2 to n2 is greater than that from o1 to n1 by more than   *)
(* 0.002 percentage points (and a relative 10^-10, for the rounding of floats).*)
\* Beyond 10^34 points: practically infinite, as in the order of rows.
Immense(o, n) == o # <<>> /\ ~BLess(n, BMul(o, BPow(<<10>>, 32)))
Exceeds(o2, n2, o1, n1) ==
  IF o2 = n2 THEN BLess(n1, o1) /\ BLess(BAdd(BMul(n1, <<0, 5>>), o1), BMul(o1, <<0, 5>>))
  ELSE IF o2 = <<>> THEN ~(o1 = <<>> /\ n1 # <<>>) /\ ~Immense(o1, n1)          \* infinite
  ELSE IF Immense(o1, n1) THEN FALSE
  ELSE IF o1 = <<>> THEN n1 = <<>> /\ BLess(BMul(o2, <<1, 5>>), BMul(n2, <<0, 5>>))
  ELSE BLess(BAdd(BMul(BMul(n1, o2), Ten10p1), BMul(BMul(o1, o2), <<0, 20>>)),
             BMul(BMul(n2, o1), Ten10))

(* A percentage is [cls |-> "fin" | "nan" | "+inf" | "-inf", neg, u] with      *)
(* u = floor(|p| * 10^12).  It fits the values o and n.                        *)
PctFits(p, o, n) ==
  IF o = n THEN p.cls = "fin" /\ p.u = <<>>
  ELSE IF o = <<>> THEN p.cls = "+inf"
  ELSE LET e == BMul(BDiff(o, n), BMul(Ten10, <<0, 1>>))     \* |n - o| * 10^14
           x == BMul(p.u, o)
           \* tolerance: 2*10^-6 percentage points and a relative 10^-10
           tol == BAdd(BMul(<<0, 200>>, o), BMul(BFromNat(1), o))
           relOk == BLeq(BMul(BDiff(x, e), Ten10), BAdd(BMul(tol, Ten10), e))
       IN /\ p.cls = "fin"
          /\ relOk
          /\ (BLess(n, o) /\ BLess(BMul(o, <<0, 0, 1>>), BMul(BSub(o, n), BMul(Ten10, <<0, 100>>)))) => p.neg
          /\ (BLess(o, n)) => ~p.neg \/ p.u = <<>> \/ BLess(p.u, <<0, 1>>)

---------------------------------------------------------------------------
(* Classification of a pair (property C08).                                    *)

(* Assignments on which two formulas are compared to see that they differ.     *)
Samples(p) ==
  LET Cs == PairComps(p) IN
  {[c \in Cs |-> <<>>], [c \in Cs |-> <<1>>], [c \in Cs |-> <<7>>],
   [c \in Cs |-> BFromNat(3 + 2 * Cardinality({d \in Cs : StrLess(d, c)}))]}
DiffersOn(p, dim) ==
  \E s \in Samples(p) : Den(Get(p.old).e, dim, s) # Den(Get(p.new).e, dim, s)
MustBeSame(p, dim) ==
  /\ (IsC(Get(p.old).e) <=> IsC(Get(p.new).e))
  /\ SameShape(Get(p.old).e, Get(p.new).e, dim, TRUE)

ChangeOk(p, dim, change) ==
  CASE ~Some(p.old) -> change = "added"
    [] ~Some(p.new) -> change = "removed"
    [] OTHER -> /\ change \in {"changed", "unchanged"}
                /\ MustBeSame(p, dim) => change = "unchanged"
                /\ DiffersOn(p, dim) => change = "changed"

---------------------------------------------------------------------------
(* Storage access plausibility (property C13).                                 *)
Judged(p) == IF Some(p.new) THEN Get(p.new) ELSE Get(p.old)
Thousand == <<1000>>
Implausible(e) == BLess(Thousand, BMax(MaxCount(e, "reads"), MaxCount(e, "writes")))
WarnKind(e) == IF BLess(MaxCount(e, "writes"), MaxCount(e, "reads")) THEN "READ" ELSE "WRITE"
WarnCount(e) == BMax(MaxCount(e, "reads"), MaxCount(e, "writes"))

---------------------------------------------------------------------------
(* Which pairs are compared (property C07).                                    *)
Keys(olds, news) == {<<olds[i].file, olds[i].name>> : i \in 1..Len(olds)}
                    \cup {<<news[i].file, news[i].name>> : i \in 1..Len(news)}
Selected(olds, news, palf, extf) ==
  {k \in Keys(olds, news) : Matches(k[1], palf) /\ Matches(k[2], extf)}
KeyLess(a, b) == StrLess(a[1], b[1]) \/ (a[1] = b[1] /\ StrLess(a[2], b[2]))

PairOf(olds, news, k) ==
  [old |-> IF Has(olds, k[1], k[2]) THEN <<First(olds, k[1], k[2])>> ELSE <<>>,
   new |-> IF Has(news, k[1], k[2]) THEN <<First(news, k[1], k[2])>> ELSE <<>>]

---------------------------------------------------------------------------
(* Filtering (property C10): thr is the threshold in units of 10^-12 points.   *)
Kept(row, thr, hasSubset, subset) ==
  \/ row.kind = "failed"
  \/ /\ hasSubset => \E i \in 1..Len(subset) : subset[i] = row.change
     /\ CASE row.change = "changed" -> row.pct.cls \in {"+inf", "-inf"} \/ ~BLess(row.pct.u, thr)
          [] row.change = "unchanged" -> thr = <<>>
          [] OTHER -> TRUE
RECURSIVE FilterRows(_, _, _, _, _)
FilterRows(rows, i, thr, hasSubset, subset) ==
  IF i > Len(rows) THEN <<>>
  ELSE (IF Kept(rows[i], thr, hasSubset, subset) THEN <<rows[i]>> ELSE <<>>)
       \o FilterRows(rows, i + 1, thr, hasSubset, subset)

---------------------------------------------------------------------------
(* Ordering (property C11).                                                    *)
Rank(row) == IF row.kind = "failed" THEN 0
             ELSE CASE row.change = "unchanged" -> 1 [] row.change = "added" -> 2
                    [] row.change = "removed" -> 3 [] OTHER -> 4

Milli == <<0, 0, 10>>                      \* 0.001 points in units of 10^-12
Huge == BPow(<<10>>, 46)                   \* 10^34 points: practically infinite
IsHuge(p) == p.cls = "+inf" \/ (p.cls = "fin" /\ ~p.neg /\ ~BLess(p.u, Huge))
(* a is greater than b by more than the resolution.                            *)
PctMuchGreater(a, b) ==
  IF IsHuge(b) \/ a.cls = "nan" \/ b.cls = "nan" THEN FALSE
  ELSE IF IsHuge(a) THEN TRUE
  ELSE CASE ~a.neg /\ ~b.neg -> BLess(BAdd(b.u, Milli), a.u)
         [] ~a.neg /\ b.neg  -> BLess(Milli, BAdd(a.u, b.u)) /\ BLess(BMul(Milli, <<2>>), BAdd(a.u, b.u))
         [] a.neg /\ ~b.neg  -> FALSE
         [] a.neg /\ b.neg   -> BLess(BAdd(a.u, Milli), b.u)
PctSame(a, b) == a.cls = b.cls /\ a.u = b.u /\ (a.u # <<>> => a.neg = b.neg)

(* May row a be placed (directly or indirectly) before row b?                  *)
InOrder(a, b) == \/ Rank(a) < Rank(b)
                 \/ Rank(a) = Rank(b) /\ (Rank(a) = 0 \/ ~PctMuchGreater(a.pct, b.pct))
SameGroup(a, b) == Rank(a) = Rank(b) /\ (Rank(a) = 0 \/ PctSame(a.pct, b.pct))

Index(rows, r) == CHOOSE i \in 1..Len(rows) : rows[i] = r
Permutes(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
Ordered(rows) == \A i, j \in 1..Len(rows) : i < j => InOrder(rows[i], rows[j])
StableWrt(before, after) ==
  \A i, j \in 1..Len(after) :
    (i < j /\ SameGroup(after[i], after[j]) /\ after[i] # after[j])
      => Index(before, after[i]) < Index(before, after[j])
=============================================================================
