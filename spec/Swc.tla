--------------------------------- MODULE Swc ---------------------------------
(* The pipeline of the comparison as a state machine:                          *)
(*   Parse -> Evaluate -> Filter -> Sort -> Done                               *)
(* The obligations of each step are given as a set of violated properties, so  *)
(* that an outcome observed on the real code can be judged per property.       *)
EXTENDS Compare

CONSTANT Checks            \* the properties that are judged
On(c) == c \in Checks
V(c, ok) == IF On(c) /\ ~ok THEN {c} ELSE {}

---------------------------------------------------------------------------
(* Parsing (one file).  res = [tag, exts]: the recorded outcome.               *)
ParseViol(name, f, res) ==
  LET want == Extract(name, f) IN
  IF res.tag = "panic" THEN V("C04", FALSE) \cup V("C02", FALSE)
  ELSE
    V("C02", /\ (res.tag = "ok") = ParsesOk(f)
             /\ res.tag = "ok" =>
                  /\ Len(res.exts) = Len(want)
                  /\ \A i \in 1..Len(want) : /\ res.exts[i].name = want[i].name
                                             /\ res.exts[i].pallet = name)
    \cup
    V("C03", /\ (res.tag = "ok") = ParsesOk(f)
             /\ res.tag = "ok" =>
                  \A i \in 1..(IF Len(res.exts) <= Len(want) THEN Len(res.exts) ELSE Len(want)) :
                    /\ {res.exts[i].ranges[j][1] : j \in 1..Len(res.exts[i].ranges)} = DOMAIN want[i].ranges
                    /\ Len(res.exts[i].ranges) = Cardinality(DOMAIN want[i].ranges)
                    /\ \A j \in 1..Len(res.exts[i].ranges) :
                         <<res.exts[i].ranges[j][2], res.exts[i].ranges[j][3]>>
                           = want[i].ranges[res.exts[i].ranges[j][1]])

---------------------------------------------------------------------------
(* Evaluation of one row for the pair p of definitions.                        *)

ScopeKeys(row) == {row.scope[i].n : i \in 1..Len(row.scope)}
ScopeFn(row) == [c \in ScopeKeys(row) |->
                   row.scope[CHOOSE i \in 1..Len(row.scope) : row.scope[i].n = c].v]

ValuesOk(row, p, dim, env) ==
  /\ Some(row.old) => (Some(p.old) /\ Get(row.old) = ValueOf(p.old, dim, env))
  /\ Some(row.new) => (Some(p.new) /\ Get(row.new) = ValueOf(p.new, dim, env))

(* All corners of the ranges; with many components, those of the hints and the *)
(* ones that differ from the reported corner in at most two components.        *)
Combos(p, m, hints, env) ==
  IF Cardinality(PairComps(p)) <= 5 THEN Corners(p, m)
  ELSE LET Cs == PairComps(p)
           iv == [c \in Cs |-> Interval(p, c, Exact(m))]
           flip(c) == IF env[c] = iv[c].lo THEN iv[c].hi ELSE iv[c].lo
           rank == [c \in Cs |-> Cardinality({d \in Cs : StrLess(d, c)})]
       IN {[c \in Cs |-> IF hints[i][(rank[c] % Len(hints[i])) + 1] % 2 = 0 THEN iv[c].lo ELSE iv[c].hi] : i \in 1..Len(hints)}
          \cup UNION {{[c \in Cs |-> IF c \in {x, y} THEN flip(c) ELSE env[c]] : y \in Cs} : x \in Cs}
\* Values inside of the ranges: a weighted mean of both ends.
Inner(p, m, hints) ==
  LET iv == [c \in PairComps(p) |-> Interval(p, c, Exact(m))] IN
  {[c \in PairComps(p) |->
      LET h == hints[i][((Cardinality({d \in PairComps(p) : StrLess(d, c)})) % Len(hints[i])) + 1]
      IN BAdd(iv[c].lo, BMin(BFromNat(h), BSub(iv[c].hi, iv[c].lo)))] : i \in 1..Len(hints)}
Linear(p) == Multilinear(Get(p.old).e) /\ Multilinear(Get(p.new).e)
Unsaturated(p, dim, env) == BLess(ValueOf(p.old, dim, env), U128Max) /\ BLess(ValueOf(p.new, dim, env), U128Max)

\* No combination of component values has a greater increase than the row.
Dominates(row, p, dim, m, hints) ==
  /\ \A f \in Combos(p, m, hints, ScopeFn(row)) :
        ~Exceeds(ValueOf(p.old, dim, f), ValueOf(p.new, dim, f), Get(row.old), Get(row.new))
  /\ Linear(p) =>
       \A f \in Inner(p, m, hints) :
         Unsaturated(p, dim, f) =>
           ~Exceeds(ValueOf(p.old, dim, f), ValueOf(p.new, dim, f), Get(row.old), Get(row.new))

RowViol(row, p, dim, m, hints) ==
  LET failed == row.kind = "failed"
      env == ScopeFn(row)
      keysOk == ScopeKeys(row) = PairComps(p) \cup {READ, WRITE}
      valsOk == keysOk /\ ValuesOk(row, p, dim, env)
      both == Some(p.old) /\ Some(p.new)
      shape == Some(row.old) = Some(p.old) /\ Some(row.new) = Some(p.new)
  IN
  V("C05", /\ failed = Fails(p, m)
           /\ failed => (TooMany(p) \/ \E c \in BadComps(p, m) : Contains(row.msg, c))
           /\ ~failed => /\ ScopeKeys(row) \ {READ, WRITE} = PairComps(p)
                         /\ Len(row.scope) = Cardinality(ScopeKeys(row))
                         /\ \A c \in PairComps(p) : env[c] \in Choices(p, m, c))
  \cup
  (IF failed THEN {}
   ELSE
     V("C01", /\ valsOk
              /\ env[READ] = RdCost(dim) /\ env[WRITE] = WrCost(dim)
              /\ shape)
     \cup
     V("C08", shape /\ ChangeOk(p, dim, row.change))
     \cup
     V("C09", (both /\ shape) => PctFits(row.pct, Get(row.old), Get(row.new)))
     \cup
     V("C06", (both /\ Worst(m)) =>
                /\ shape /\ valsOk
                /\ PctFits(row.pct, Get(row.old), Get(row.new))
                /\ Dominates(row, p, dim, m, hints))
     \cup
     V("C13", LET e == Judged(p).e IN
              /\ (row.kind = "warning") = Implausible(e)
              /\ row.kind = "warning" =>
                   /\ Contains(row.msg, BStr(WarnCount(e)))
                   /\ Contains(row.msg, WarnKind(e))
                   /\ ~Contains(row.msg, IF WarnKind(e) = "READ" THEN "WRITE" ELSE "READ")
                   /\ Contains(row.msg, row.name)
                   /\ valsOk))

(* All rows of an unfiltered comparison.                                       *)
RowsComplete(rows, sel) ==
  /\ Len(rows) = Cardinality(sel)
  /\ {<<rows[i].file, rows[i].name>> : i \in 1..Len(rows)} = sel
RowsAscending(rows) ==
  \A i \in 1..(Len(rows) - 1) : KeyLess(<<rows[i].file, rows[i].name>>, <<rows[i+1].file, rows[i+1].name>>)

EvalViol(rows, olds, news, ev) ==
  LET sel == Selected(olds, news, ev.palf, ev.extf) IN
  V("C07", /\ RowsComplete(rows, sel) /\ RowsAscending(rows)
           /\ \A i \in 1..Len(rows) :
                (rows[i].kind # "failed" /\ <<rows[i].file, rows[i].name>> \in sel) =>
                  LET p == PairOf(olds, news, <<rows[i].file, rows[i].name>>) IN
                  /\ Some(rows[i].old) = Some(p.old) /\ Some(rows[i].new) = Some(p.new)
                  /\ ScopeKeys(rows[i]) = PairComps(p) \cup {READ, WRITE}
                  /\ ValuesOk(rows[i], p, ev.unit, ScopeFn(rows[i])))
  \cup
  UNION {LET k == <<rows[i].file, rows[i].name>> IN
         IF k \in sel THEN RowViol(rows[i], PairOf(olds, news, k), ev.unit, ev.method, ev.hints) ELSE {}
         : i \in 1..Len(rows)}

(* Filtered and sorted rows are given as positions in the unfiltered rows;     *)
(* position 0 stands for a row that is not one of them.                        *)
FilterViol(rows, kept, ev) ==
  V("C10", kept = SelectSeq([i \in 1..Len(rows) |-> i],
                            LAMBDA i : Kept(rows[i], ev.thr, ev.hasSubset, ev.subset)))

SortViol(rows, kept, sorted, resorted) ==
  LET InRange(s) == \A i \in 1..Len(s) : s[i] \in 1..Len(rows)
      Pos(x) == CHOOSE i \in 1..Len(kept) : kept[i] = x IN
  V("C11", /\ InRange(sorted)
           /\ Len(sorted) = Len(kept)
           /\ {sorted[i] : i \in 1..Len(sorted)} = {kept[i] : i \in 1..Len(kept)}
           /\ \A i, j \in 1..Len(sorted) : i < j =>
                /\ InOrder(rows[sorted[i]], rows[sorted[j]])
                /\ SameGroup(rows[sorted[i]], rows[sorted[j]]) => Pos(sorted[i]) < Pos(sorted[j])
           /\ resorted = sorted)
=============================================================================
