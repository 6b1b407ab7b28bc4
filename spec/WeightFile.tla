----------------------------- MODULE WeightFile -----------------------------
(* What is extracted from a weight file.  A file is                           *)
(*   [syntax |-> BOOLEAN, items |-> sequence of items]                        *)
(* with the items                                                             *)
(*   [k |-> "impl", self |-> kind of the self type, fns |-> functions]        *)
(*   [k |-> "other"]                                                          *)
(* (the other items of an impl block are left out: they have no meaning).     *)
(* A function is                                                              *)
(*   [name, ret |-> last segment of the return type ("" if none),             *)
(*    stmts |-> statements, docs |-> doc comments]                            *)
(* with statements [k |-> "expr", e] or [k |-> "other"] and doc comments      *)
(* [k |-> "range", c, lo, hi] or [k |-> "other"].                             *)
EXTENDS WeightExpr

SelfTypes == {"WeightInfo", "SubstrateWeight", "()"}

GoodDoc(d) == d.k = "range" => BLeq(d.lo, d.hi) /\ BLeq(d.hi, U32Max)

GoodFn(f) ==
  /\ EndsWith(f.ret, "Weight")
  /\ Len(f.stmts) = 1 /\ f.stmts[1].k = "expr" /\ Accepted(f.stmts[1].e)
  /\ \A i \in 1..Len(f.docs) : GoodDoc(f.docs[i])

Usable(it) ==
  /\ it.k = "impl" /\ it.self \in SelfTypes
  /\ it.fns # <<>>
  /\ \A i \in 1..Len(it.fns) : GoodFn(it.fns[i])

(* The last annotation of a component counts; underscores in its name do not.  *)
RangesOf(docs) ==
  LET Idx == {i \in 1..Len(docs) : docs[i].k = "range"}
      Names == {NoUnderscore(docs[i].c) : i \in Idx}
      Last(n) == CHOOSE i \in Idx : /\ NoUnderscore(docs[i].c) = n
                                    /\ \A j \in Idx : NoUnderscore(docs[j].c) = n => j <= i
  IN [n \in Names |-> <<docs[Last(n)].lo, docs[Last(n)].hi>>]

ExtOf(file, f) == [file |-> file, name |-> f.name, e |-> f.stmts[1].e, ranges |-> RangesOf(f.docs)]

UsableIdx(f) == {i \in 1..Len(f.items) : Usable(f.items[i])}
ParsesOk(f) == f.syntax /\ UsableIdx(f) # {}

(* The extrinsics of a file in their order; << >> if there is no usable block. *)
Extract(name, f) ==
  IF ~ParsesOk(f) THEN <<>>
  ELSE LET u == CHOOSE i \in UsableIdx(f) : \A j \in UsableIdx(f) : i <= j
       IN [i \in 1..Len(f.items[u].fns) |-> ExtOf(name, f.items[u].fns[i])]

(* All extrinsics of the files of one side.                                    *)
RECURSIVE ExtractAll(_, _)
ExtractAll(fs, i) == IF i > Len(fs) THEN <<>> ELSE Extract(fs[i].pallet, fs[i].f) \o ExtractAll(fs, i + 1)
AllParse(fs) == \A i \in 1..Len(fs) : ParsesOk(fs[i].f)

(* The definition of an extrinsic that counts: the first one.                  *)
Has(exts, file, name) == \E i \in 1..Len(exts) : exts[i].file = file /\ exts[i].name = name
First(exts, file, name) ==
  exts[CHOOSE i \in 1..Len(exts) :
         /\ exts[i].file = file /\ exts[i].name = name
         /\ \A j \in 1..(i-1) : ~(exts[j].file = file /\ exts[j].name = name)]
=============================================================================
