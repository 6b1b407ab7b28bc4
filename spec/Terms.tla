------------------------------- MODULE Terms -------------------------------
(* The terms of the library, independently of the files they come from: trees *)
(* [k |-> "val"/"sca", v], [k |-> "var", n], [k |-> "add"/"mul", l, r], and    *)
(* scopes, which bind names to terms: sequences of [n, t] with unique names.   *)
EXTENDS BigNat, FiniteSets

Bound(s) == {s[i].n : i \in 1..Len(s)}
Lookup(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].n = n].t

(* The value of a term, << >> if a variable is not defined.  Scopes must not   *)
(* be circular.                                                                *)
RECURSIVE Val(_, _)
Val(t, s) ==
  CASE t.k \in {"val", "sca"} -> <<t.v>>
    [] t.k = "var" -> IF t.n \in Bound(s) THEN Val(Lookup(s, t.n), s) ELSE <<>>
    [] t.k \in {"add", "mul"} ->
         LET a == Val(t.l, s) b == Val(t.r, s) IN
         IF a = <<>> \/ b = <<>> THEN <<>>
         ELSE <<IF t.k = "add" THEN BSatAdd(a[1], b[1]) ELSE BSatMul(a[1], b[1])>>

RECURSIVE Names(_)
Names(t) == CASE t.k = "var" -> {t.n}
              [] t.k \in {"add", "mul"} -> Names(t.l) \cup Names(t.r)
              [] OTHER -> {}
Free(t, s)   == Names(t) \ Bound(s)
BoundIn(t, s) == Names(t) \cap Bound(s)

RECURSIVE Subst(_, _, _)
Subst(t, v, u) ==
  CASE t.k = "var" -> IF t.n = v THEN u ELSE t
    [] t.k \in {"add", "mul"} -> [t EXCEPT !.l = Subst(t.l, v, u), !.r = Subst(t.r, v, u)]
    [] OTHER -> t

(* Scopes as maps; on conflicts the right one counts.                          *)
AsMap(s) == [n \in Bound(s) |-> Lookup(s, n)]
Over(f, g) == [n \in (DOMAIN f) \cup (DOMAIN g) |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
Single(n, t) == [x \in {n} |-> t]
Unique(s) == Cardinality(Bound(s)) = Len(s)

Range(q) == {q[i] : i \in 1..Len(q)}
IsSet(q, S) == Range(q) = S /\ Len(q) = Cardinality(S)

(* What is reported about a term t, a term u, a variable v and scopes s and o. *)
Storage == {"READ", "WRITE"}
TermOk(e) ==
  LET t == e.t u == e.u v == e.v s == e.scope o == e.other r == e.r
      t0 == Val(t, s) IN
  /\ r.value = t0
  /\ IsSet(r.free, Free(t, s)) /\ IsSet(r.bound, BoundIn(t, s))
  \* The shape of a term is not observed, but what it means.
  /\ \A x \in {r.subst, r.mutated} :
       /\ Val(x, s) = Val(Subst(t, v, u), s)
       /\ Names(x) = Names(Subst(t, v, u))
  /\ r.zero => t0 \in {<<>>, <<BZero>>}
  /\ r.one => t0 = <<BOne>>
  \* One dimension keeps the value, the other one has none.
  /\ r.astime.time = t0 /\ r.asproof.proof = t0
  /\ Names(t) \cap Storage = {} =>
       /\ r.astime.proof = (IF t0 = <<>> THEN <<>> ELSE <<BZero>>)
       /\ r.asproof.time = (IF t0 = <<>> THEN <<>> ELSE <<BZero>>)
  /\ LET u0 == Val(u, s) IN
     /\ (Names(t) \cup Names(u)) \cap Storage = {} =>
          /\ r.splice.time = (IF t0 = <<>> \/ u0 = <<>> THEN <<>> ELSE t0)
          /\ r.splice.proof = (IF t0 = <<>> \/ u0 = <<>> THEN <<>> ELSE u0)
  /\ \A x \in {r.scope, r.with, r.extended, r.merged} : Unique(x)
  /\ AsMap(r.scope) = AsMap(s)
  /\ AsMap(r.with) = Over(AsMap(s), Single(v, u))
  /\ AsMap(r.extended) = Over(AsMap(s), AsMap(o))
  /\ AsMap(r.merged) = Over(AsMap(s), AsMap(o))
  /\ r.len = Len(s) /\ r.empty = (s = <<>>)
  /\ r.get = (IF v \in Bound(s) THEN <<Lookup(s, v)>> ELSE <<>>)

---------------------------------------------------------------------------
(* Terms over weights, which have two dimensions: leaves [k |-> "val", t, p].  *)
(* Only numbers without dimension, written or bound, can be multiplied with.   *)
CScal(t, s) ==
  CASE t.k = "sca" -> <<t.v>>
    [] t.k = "var" -> IF t.n \in Bound(s) /\ Lookup(s, t.n).k = "sca" THEN <<Lookup(s, t.n).v>> ELSE <<>>
    [] OTHER -> <<>>
RECURSIVE CVal(_, _)
CVal(t, s) ==
  LET times(f, w) == IF w = <<>> THEN <<>> ELSE <<<<BSatMul(f[1], w[1][1]), BSatMul(f[1], w[1][2])>>>> IN
  CASE t.k = "val" -> <<<<t.t, t.p>>>>
    [] t.k = "var" -> IF t.n \in Bound(s) THEN CVal(Lookup(s, t.n), s) ELSE <<>>
    [] t.k = "add" -> LET a == CVal(t.l, s) b == CVal(t.r, s) IN
                      IF a = <<>> \/ b = <<>> THEN <<>>
                      ELSE <<<<BSatAdd(a[1][1], b[1][1]), BSatAdd(a[1][2], b[1][2])>>>>
    [] t.k = "mul" -> IF CScal(t.l, s) # <<>> THEN times(CScal(t.l, s), CVal(t.r, s))
                      ELSE IF CScal(t.r, s) # <<>> THEN times(CScal(t.r, s), CVal(t.l, s)) ELSE <<>>
    [] OTHER -> <<>>
\* A bound weight times a bound number, in this order, need not be evaluated.
RECURSIVE Canonical(_, _)
Canonical(t, s) ==
  CASE t.k = "var" -> (t.n \in Bound(s) => Canonical(Lookup(s, t.n), s))
    [] t.k = "add" -> Canonical(t.l, s) /\ Canonical(t.r, s)
    [] t.k = "mul" -> Canonical(t.l, s) /\ Canonical(t.r, s) /\ (t.l.k = "var" => (CScal(t.l, s) # <<>> \/ t.r.k = "sca" \/ CScal(t.r, s) = <<>>))
    [] OTHER -> TRUE
CTermOk(e) ==
  LET t == e.t u == e.u s == e.scope r == e.r
      is(x, y) == x = CVal(y, s) \/ (x = <<>> /\ ~Canonical(y, s))
      w == CVal(t, s)
      sum == [k |-> "add", l |-> t, r |-> u] IN
  /\ is(r.value, t)
  /\ w # <<>> => r.time = <<w[1][1]>> /\ r.proof = <<w[1][2]>>
  /\ IsSet(r.free, Free(t, s)) /\ IsSet(r.bound, BoundIn(t, s))
  /\ r.zero => w \in {<<>>, <<<<BZero, BZero>>>>}
  /\ r.one => w = <<<<BOne, BOne>>>>
  /\ is(r.subst, Subst(t, e.v, u)) /\ is(r.mutated, Subst(t, e.v, u))
  /\ is(r.splice, sum)

---------------------------------------------------------------------------
(* Laws of the specification itself, checked on every observed case.           *)
TermLaws(e) ==
  LET t == e.t u == e.u v == e.v s == e.scope IN
  /\ (Val(t, s) # <<>>) => Free(t, s) = {}
  \* Substituting is the same as binding, unless definitions refer to v.
  /\ (v \notin Names(u) /\ v \notin UNION {Names(s[i].t) : i \in 1..Len(s)} /\ Names(u) \cap {v} = {}) =>
       Val(Subst(t, v, u), s) = Val(t, SelectSeq(s, LAMBDA x : x.n # v) \o <<[n |-> v, t |-> u]>>)
  /\ v \notin Names(t) => Subst(t, v, u) = t
=============================================================================
