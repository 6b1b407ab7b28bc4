------------------------------ MODULE OtherFiles ------------------------------
(* Database weight files, overhead weight files and guessing the kind of a     *)
(* file (property C17).  Items:                                                *)
(*   [k |-> "mod", name, items]   a module with a body                         *)
(*   [k |-> "macro", name, consts]  name!{ consts }                            *)
(*   [k |-> "impl", ...] and [k |-> "other"]  as in WeightFile                 *)
(* and consts [name, ty |-> path of the type, v |-> value] with the values     *)
(*   [k |-> "struct", s |-> path, fields |-> sequence of [n, e]]               *)
(*   [k |-> "expr", e]                                                         *)
(* Expressions may also be [k |-> "bin", op, l, r].                            *)
EXTENDS WeightFile

ConstEnv == [n \in {"WEIGHT_PER_NANOS", "WEIGHT_REF_TIME_PER_NANOS", "constants::WEIGHT_PER_NANOS",
                    "constants::WEIGHT_REF_TIME_PER_NANOS"} |-> <<1000>>]

RECURSIVE IsDb(_)
IsDb(e) == CASE e.k = "bin" -> e.op \in {"+", "*"} /\ IsDb(e.l) /\ IsDb(e.r)
             [] e.k \in {"lit", "path"} -> TRUE
             [] OTHER -> FALSE
RECURSIVE DenDb(_)
DenDb(e) == CASE e.k = "lit" -> e.v
              [] e.k = "path" -> ConstEnv[e.n]
              [] e.op = "+" -> BSatAdd(DenDb(e.l), DenDb(e.r))
              [] e.op = "*" -> BSatMul(DenDb(e.l), DenDb(e.r))

FieldIdx(c, n) == {i \in 1..Len(c.v.fields) : c.v.fields[i].n = n}
GoodDb(m) ==
  /\ m.name = "parameter_types" /\ Len(m.consts) = 1
  /\ LET c == m.consts[1] IN
     /\ c.name \in {"RocksDbWeight", "ParityDbWeight"}
     /\ c.ty = <<"RuntimeDbWeight">>
     /\ c.v.k = "struct" /\ c.v.s = <<"RuntimeDbWeight">>
     /\ Len(c.v.fields) = 2 /\ FieldIdx(c, "read") # {} /\ FieldIdx(c, "write") # {}
     /\ \A i \in 1..2 : IsDb(c.v.fields[i].e)
DbOf(m) == LET c == m.consts[1]
               F(n) == DenDb(c.v.fields[CHOOSE i \in FieldIdx(c, n) : TRUE].e)
           IN [kind |-> IF c.name = "RocksDbWeight" THEN "rocks" ELSE "parity",
               read |-> F("read"), write |-> F("write")]

\* Overhead: a sum or product of two one-dimensional expressions, or a weight.
IsOver(e) == IF e.k = "bin" THEN e.op \in {"+", "*"} /\ IsS(e.l) /\ IsS(e.r) ELSE IsC(e)
GoodOver(m) ==
  /\ m.name = "parameter_types" /\ Len(m.consts) = 1
  /\ LET c == m.consts[1] IN
     /\ c.name \in {"BlockExecutionWeight", "ExtrinsicBaseWeight"}
     /\ c.ty = <<"Weight">>
     /\ c.v.k = "expr" /\ IsOver(c.v.e)
OverVal(e, dim) ==
  IF e.k # "bin" THEN Den(e, dim, ConstEnv)
  ELSE IF dim = "proof" THEN BZero
  ELSE IF e.op = "+" THEN BSatAdd(DenD(e.l, dim, ConstEnv), DenD(e.r, dim, ConstEnv))
  ELSE BSatMul(DenD(e.l, dim, ConstEnv), DenD(e.r, dim, ConstEnv))
OverOf(m) == LET c == m.consts[1] IN
  [kind |-> IF c.name = "BlockExecutionWeight" THEN "block" ELSE "extrinsic",
   time |-> OverVal(c.v.e, "time"), proof |-> OverVal(c.v.e, "proof")]

\* All macros that are looked at, in order: at the top level and in modules `constants`.
RECURSIVE Macros(_, _)
Macros(items, i) ==
  IF i > Len(items) THEN <<>>
  ELSE (CASE items[i].k = "macro" -> <<items[i]>>
          [] items[i].k = "mod" /\ items[i].name = "constants" -> Macros(items[i].items, 1)
          [] OTHER -> <<>>) \o Macros(items, i + 1)

DbMacros(f)   == SelectSeq(Macros(f.items, 1), GoodDb)
OverMacros(f) == SelectSeq(Macros(f.items, 1), GoodOver)

StorageOk(f)  == f.syntax /\ DbMacros(f) # <<>>
OverheadOk(f) == f.syntax /\ OverMacros(f) # <<>>

KindOf(f) == IF ParsesOk(f) THEN "pallet" ELSE IF StorageOk(f) THEN "storage"
             ELSE IF OverheadOk(f) THEN "overhead" ELSE "none"
=============================================================================
