----------------------------- MODULE WeightExpr -----------------------------
(* The language of weight formulas: which bodies of a weight function are     *)
(* understood, and what they denote.                                          *)
(*                                                                            *)
(* An expression is a record with a field k:                                  *)
(*   [k |-> "lit", v]          integer literal with a value below 2^128       *)
(*   [k |-> "badlit"]          any other literal                              *)
(*   [k |-> "path", n]         a variable                                     *)
(*   [k |-> "paren", e], [k |-> "cast", e]                                    *)
(*   [k |-> "m", n, r, a]      method call  r.n(a[1], a[2], ...)              *)
(*   [k |-> "call", s, a]      function call  s[1]::s[2]::...(a[1], ...)      *)
(*   [k |-> "other"]           anything else                                  *)
EXTENDS BigNat, Text, FiniteSets

READ  == "READ"
WRITE == "WRITE"
ReadTime  == BMul(<<25>>, <<0, 100>>)      \*  25,000,000 ps
WriteTime == BMul(<<100>>, <<0, 100>>)     \* 100,000,000 ps

RECURSIVE Strip(_)
Strip(e) == IF e.k \in {"paren", "cast"} THEN Strip(e.e) ELSE e

(* T::DbWeight::get(), or get() of a RocksDbWeight or ParityDbWeight.          *)
IsDbCall(e) ==
  /\ e.k = "call" /\ e.a = <<>>
  /\ LET n == Len(e.s) IN
     \/ e.s = <<"T", "DbWeight", "get">>
     \/ n >= 2 /\ e.s[n] = "get" /\ (EndsWith(e.s[n-1], "RocksDbWeight") \/ EndsWith(e.s[n-1], "ParityDbWeight"))

Fn(e) == IF Len(e.s) >= 2 THEN e.s[Len(e.s)] ELSE ""

(* One-dimensional expressions, the legacy syntax; also the arguments of the   *)
(* constructors of two-dimensional ones.                                       *)
RECURSIVE IsS(_)
IsS(e) ==
  CASE e.k \in {"paren", "cast"} -> IsS(e.e)
    [] e.k = "lit"  -> TRUE
    [] e.k = "path" -> TRUE
    [] e.k = "call" -> \/ Fn(e) = "from_ref_time" /\ Len(e.a) = 1 /\ IsS(e.a[1])
                       \/ Fn(e) = "zero" /\ e.a = <<>>
    [] e.k = "m" ->
         \/ e.n = "ref_time" /\ e.a = <<>> /\ IsS(e.r)
         \/ e.n = "into" /\ IsS(e.r)
         \/ e.n \in {"reads", "writes"} /\ IsDbCall(e.r) /\ Len(e.a) = 1 /\ IsS(e.a[1])
         \/ e.n \in {"saturating_add", "saturating_mul"} /\ Len(e.a) = 1 /\ IsS(e.r) /\ IsS(e.a[1])
    [] OTHER -> FALSE

(* Two-dimensional expressions.                                                *)
RECURSIVE IsC(_)
IsC(e) ==
  CASE e.k \in {"paren", "cast"} -> IsC(e.e)
    [] e.k = "path" -> TRUE
    [] e.k = "call" -> \/ Fn(e) \in {"from_ref_time", "from_proof_size"} /\ Len(e.a) = 1 /\ IsS(e.a[1])
                       \/ Fn(e) = "from_parts" /\ Len(e.a) = 2 /\ IsS(e.a[1]) /\ IsS(e.a[2])
                       \/ Fn(e) = "zero" /\ e.a = <<>>
    [] e.k = "m" ->
         \/ e.n = "into" /\ IsC(e.r)
         \/ e.n \in {"reads", "writes"} /\ IsDbCall(e.r) /\ Len(e.a) = 1 /\ IsS(e.a[1])
         \/ e.n \in {"saturating_add", "saturating_mul"} /\ Len(e.a) = 1 /\ IsC(e.r) /\ IsC(e.a[1])
    [] OTHER -> FALSE

Accepted(e) == IsC(e) \/ IsS(e)

(* The value of a one-dimensional expression, given the values of its          *)
(* variables and the costs of one read and one write.                          *)
RECURSIVE DenS(_, _, _, _)
DenS(e, rd, wr, env) ==
  CASE e.k \in {"paren", "cast"} -> DenS(e.e, rd, wr, env)
    [] e.k = "lit"  -> e.v
    [] e.k = "path" -> env[e.n]
    [] e.k = "call" -> IF Fn(e) = "zero" THEN BZero ELSE DenS(e.a[1], rd, wr, env)
    [] e.n \in {"ref_time", "into"} -> DenS(e.r, rd, wr, env)
    [] e.n = "reads"  -> BSatMul(DenS(e.a[1], rd, wr, env), rd)
    [] e.n = "writes" -> BSatMul(DenS(e.a[1], rd, wr, env), wr)
    [] e.n = "saturating_add" -> BSatAdd(DenS(e.r, rd, wr, env), DenS(e.a[1], rd, wr, env))
    [] e.n = "saturating_mul" -> BSatMul(DenS(e.r, rd, wr, env), DenS(e.a[1], rd, wr, env))

RdCost(dim) == IF dim = "time" THEN ReadTime ELSE BZero
WrCost(dim) == IF dim = "time" THEN WriteTime ELSE BZero
DenD(e, dim, env) == DenS(e, RdCost(dim), WrCost(dim), env)

(* The value of a two-dimensional expression in one dimension.                 *)
RECURSIVE DenC(_, _, _)
DenC(e, dim, env) ==
  CASE e.k \in {"paren", "cast"} -> DenC(e.e, dim, env)
    [] e.k = "path" -> env[e.n]
    [] e.k = "call" ->
         (CASE Fn(e) = "zero" -> BZero
            [] Fn(e) = "from_ref_time"   -> IF dim = "time"  THEN DenD(e.a[1], dim, env) ELSE BZero
            [] Fn(e) = "from_proof_size" -> IF dim = "proof" THEN DenD(e.a[1], dim, env) ELSE BZero
            [] Fn(e) = "from_parts" -> DenD(IF dim = "time" THEN e.a[1] ELSE e.a[2], dim, env))
    [] e.n = "into" -> DenC(e.r, dim, env)
    [] e.n \in {"reads", "writes"} -> DenD(e, dim, env)
    [] e.n = "saturating_add" -> BSatAdd(DenC(e.r, dim, env), DenC(e.a[1], dim, env))
    [] e.n = "saturating_mul" -> BSatMul(DenC(e.r, dim, env), DenC(e.a[1], dim, env))

(* A body that is no two-dimensional expression is a legacy one-dimensional    *)
(* weight, which is a time.                                                    *)
Den(e, dim, env) ==
  IF IsC(e) THEN DenC(e, dim, env)
  ELSE IF dim = "time" THEN DenD(e, dim, env) ELSE BZero

(* The components of a formula, in both of its dimensions.                     *)
RECURSIVE Comps(_)
Comps(e) ==
  CASE e.k \in {"paren", "cast"} -> Comps(e.e)
    [] e.k = "path" -> {e.n}
    [] e.k = "call" -> UNION {Comps(e.a[i]) : i \in 1..Len(e.a)}
    [] e.k = "m" -> (IF e.n \in {"reads", "writes"} THEN {} ELSE Comps(e.r))
                    \cup (IF e.n = "into" THEN {} ELSE UNION {Comps(e.a[i]) : i \in 1..Len(e.a)})
    [] OTHER -> {}

(* The literal numbers of reads (or writes) of all storage accesses.           *)
RECURSIVE Counts(_, _)
Counts(e, m) ==
  CASE e.k \in {"paren", "cast"} -> Counts(e.e, m)
    [] e.k = "call" -> UNION {Counts(e.a[i], m) : i \in 1..Len(e.a)}
    [] e.k = "m" ->
         (IF e.n = m /\ Len(e.a) = 1 /\ Strip(e.a[1]).k = "lit" THEN {Strip(e.a[1]).v} ELSE {})
         \cup (IF e.n \in {"reads", "writes"} THEN {} ELSE Counts(e.r, m))
         \cup (IF e.n = "into" THEN {} ELSE UNION {Counts(e.a[i], m) : i \in 1..Len(e.a)})
    [] OTHER -> {}
MaxCount(e, m) ==
  LET S == Counts(e, m) IN
  IF S = {} THEN BZero ELSE CHOOSE x \in S : \A y \in S : BLeq(y, x)

(* At most one factor of every product depends on a component: the formula is  *)
(* linear in each component if no component occurs in both factors.            *)
RECURSIVE Multilinear(_)
Multilinear(e) ==
  CASE e.k \in {"paren", "cast"} -> Multilinear(e.e)
    [] e.k = "call" -> \A i \in 1..Len(e.a) : Multilinear(e.a[i])
    [] e.k = "m" ->
         /\ (e.n \in {"reads", "writes"} \/ Multilinear(e.r))
         /\ (e.n = "into" \/ \A i \in 1..Len(e.a) : Multilinear(e.a[i]))
         /\ (e.n = "saturating_mul" => Comps(e.r) \cap Comps(e.a[1]) = {})
    [] OTHER -> TRUE

(* Two formulas that can only differ in the literals of the dimension that is  *)
(* not looked at are the same formula in the dimension dim.  live tells        *)
(* whether the literals of the current sub-expression matter.                  *)
RECURSIVE SameShape(_, _, _, _)
SameShape(a, b, dim, live) ==
  /\ a.k = b.k
  /\ CASE a.k \in {"paren", "cast"} -> SameShape(a.e, b.e, dim, live)
       [] a.k = "lit"  -> live => a.v = b.v
       [] a.k = "path" -> NoUnderscore(a.n) = NoUnderscore(b.n)
       [] a.k = "call" ->
            /\ a.s = b.s /\ Len(a.a) = Len(b.a)
            /\ CASE Fn(a) = "from_parts" /\ Len(a.a) = 2 ->
                      /\ SameShape(a.a[1], b.a[1], dim, live /\ dim = "time")
                      /\ SameShape(a.a[2], b.a[2], dim, live /\ dim = "proof")
                 [] Fn(a) = "from_proof_size" /\ Len(a.a) = 1 ->
                      SameShape(a.a[1], b.a[1], dim, live /\ dim = "proof")
                 [] OTHER -> \A i \in 1..Len(a.a) : SameShape(a.a[i], b.a[i], dim, live)
       [] a.k = "m" ->
            /\ a.n = b.n /\ Len(a.a) = Len(b.a)
            /\ SameShape(a.r, b.r, dim, live)
            /\ \A i \in 1..Len(a.a) :
                 SameShape(a.a[i], b.a[i], dim, live \/ a.n \in {"reads", "writes"})
       [] OTHER -> TRUE
=============================================================================
