------------------------------- MODULE Display -------------------------------
(* How numbers and formulas are displayed (properties C14 and C15).            *)
EXTENDS WeightExpr, Integers

Digits == "0123456789"
IsDigit(c) == c \in {"0","1","2","3","4","5","6","7","8","9"}
DigitVal(c) == Code(c) - Code("0")

\* Number of leading digits of s from position i.
RECURSIVE DigitsFrom(_, _)
DigitsFrom(s, i) == IF i <= Len(s) /\ IsDigit(Ch(s, i)) THEN 1 + DigitsFrom(s, i + 1) ELSE 0

RECURSIVE SmallNum(_, _)
SmallNum(s, i) == IF i > Len(s) THEN 0 ELSE DigitVal(Ch(s, i)) * (CASE i = Len(s) -> 1 [] i = Len(s) - 1 -> 10 [] i = Len(s) - 2 -> 100 [] OTHER -> 1000) + SmallNum(s, i + 1)
RECURSIVE BParse_(_)
BParse_(s) == IF Len(s) <= 4 THEN <<SmallNum(s, 1)>>
              ELSE <<SmallNum(SubSeq(s, Len(s) - 3, Len(s)), 1)>> \o BParse_(SubSeq(s, 1, Len(s) - 4))
\* The number written as the digit string s.
BParse(s) == BTrim(BParse_(s))

\* "12.34ms" as [ok, whole |-> "12", frac |-> "34", unit |-> "ms"].
Shown(s) ==
  LET n == DigitsFrom(s, 1)
      dot == n + 1 <= Len(s) /\ Ch(s, n + 1) = "."
      m == IF dot THEN DigitsFrom(s, n + 2) ELSE 0
      e == IF dot THEN n + 1 + m ELSE n
  IN [ok |-> n > 0 /\ (dot => m > 0),
      whole |-> SubSeq(s, 1, n),
      frac |-> IF dot THEN SubSeq(s, n + 2, n + 1 + m) ELSE "",
      unit |-> SubSeq(s, e + 1, Len(s))]

K == <<1000>>
KiB == <<1024>>
Units(kind) ==
  CASE kind = "time"  -> <<<<"ps", BOne>>, <<"ns", K>>, <<"us", BPow(K, 2)>>, <<"ms", BPow(K, 3)>>, <<"s", BPow(K, 4)>> >>
    [] kind = "proof" -> <<<<"B", BOne>>, <<"KiB", KiB>>, <<"MiB", BPow(KiB, 2)>>, <<"GiB", BPow(KiB, 3)>> >>
    [] OTHER          -> <<<<"", BOne>>, <<"K", K>>, <<"M", BPow(K, 2)>>, <<"G", BPow(K, 3)>>, <<"T", BPow(K, 4)>> >>

UnitIdx(kind, v) ==
  LET us == Units(kind)
      fit == {i \in 1..Len(us) : BLeq(us[i][2], v)}
  IN IF fit = {} THEN 1 ELSE CHOOSE i \in fit : \A j \in fit : j <= i

\* v / 10^12, rounded down.
Ppt(v) == IF Len(v) <= 3 THEN <<>> ELSE SubSeq(v, 4, Len(v))

\* The text t shows the value v.
ShowsValue(kind, v, t) ==
  LET s == Shown(t)
      i == UnitIdx(kind, v)
      u == Units(kind)[i] IN
  /\ s.ok /\ s.unit = u[1]
  /\ IF i = 1 THEN s.frac = "" /\ BParse(s.whole) = v
     ELSE /\ Len(s.frac) = 2
          /\ (Len(s.whole) > 1 => Ch(s.whole, 1) # "0")
          \* |shown * unit - v| <= unit / 200, with shown in hundredths (and the rounding of floats)
          /\ LET x == BMul(BParse(s.whole \o s.frac), u[2])
                 y == BMul(v, <<100>>)
             IN BLeq(BMul(BDiff(x, y), <<2>>), BAdd(u[2], BAdd(Ppt(y), BOne)))

---------------------------------------------------------------------------
(* Equations: expressions over [k |-> "num", d, u] (the number d/100 in the    *)
(* unit u, with two decimals), [k |-> "int", v], [k |-> "var", n], "add" and   *)
(* "mul" with l and r.  A rounded number stands for an interval.               *)
Two == <<2>>
UnitVal(u) == LET us == Units("scalar") IN us[CHOOSE i \in 1..Len(us) : us[i][1] = u][2]

\* x / 200 for multiples of 200.
RECURSIVE DivSmall(_, _, _, _)
DivSmall(a, d, i, rem) ==
  IF i = 0 THEN <<>> ELSE
  LET cur == rem * 10000 + a[i] IN Append(DivSmall(a, d, i - 1, cur % d), cur \div d)
BDiv(a, d) == BTrim(DivSmall(a, d, Len(a), 0))

RECURSIVE EqIv(_, _)
EqIv(e, env) ==
  CASE e.k = "int" -> <<e.v, e.v>>
    [] e.k = "num" ->
         LET u == UnitVal(e.u)
             lo == BDiv(BMul(BSub(BMul(e.d, Two), BOne), u), 200)
             hi == BDiv(BMul(BAdd(BMul(e.d, Two), BOne), u), 200)
         IN <<BSub(lo, Ppt(lo)), BSat(BAdd(BAdd(hi, Ppt(hi)), BOne))>>
    [] e.k = "var" -> <<env[e.n], env[e.n]>>
    [] e.k = "add" -> LET a == EqIv(e.l, env) b == EqIv(e.r, env)
                      IN <<BSatAdd(a[1], b[1]), BSatAdd(a[2], b[2])>>
    [] e.k = "mul" -> LET a == EqIv(e.l, env) b == EqIv(e.r, env)
                      IN <<BSatMul(a[1], b[1]), BSatMul(a[2], b[2])>>

RECURSIVE EqVars(_)
EqVars(e) == CASE e.k = "var" -> {e.n}
               [] e.k \in {"add", "mul"} -> EqVars(e.l) \cup EqVars(e.r)
               [] OTHER -> {}

Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61>>
EqSamples(Cs) ==
  LET Nth(c) == Cardinality({d \in Cs : StrLess(d, c)}) + 1 IN
  {[c \in Cs |-> <<>>], [c \in Cs |-> BOne], [c \in Cs |-> <<Primes[((Nth(c) - 1) % 18) + 1]>>],
   [c \in Cs |-> <<0, 1 + Nth(c)>>]}
  \cup {[c \in Cs |-> IF c = d THEN <<0, 0, 7>> ELSE <<>>] : d \in Cs}

\* The equation eq means the formula f in the dimension dim.
EquationOk(eq, f, dim) ==
  LET Cs == Comps(f) IN
  /\ EqVars(eq) \subseteq Cs \cup {READ, WRITE}
  /\ \A s \in EqSamples(Cs) :
       LET v == Den(f, dim, s)
           env == [c \in Cs \cup {READ, WRITE} |->
                    IF c = READ THEN RdCost(dim) ELSE IF c = WRITE THEN WrCost(dim) ELSE s[c]]
           iv == EqIv(eq, env)
       IN BLeq(iv[1], v) /\ BLeq(v, iv[2])
=============================================================================
