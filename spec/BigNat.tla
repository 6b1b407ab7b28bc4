------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of arbitrary size.  Weights are 128-bit numbers, TLC's     *)
(* integers have 32 bits.  A number is the sequence of its base-10^4 digits,  *)
(* least significant first and without leading zeros; zero is << >>.          *)
EXTENDS Naturals, Sequences, TLC

LOCAL Base == 10000

RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BFromNat(_)
BFromNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BFromNat(n \div Base)

BZero == <<>>
BOne  == <<1>>

LOCAL Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
LOCAL MinN(x, y) == IF x <= y THEN x ELSE y
LOCAL MaxN(x, y) == IF x >= y THEN x ELSE y

\* Propagates carries of a sequence of (possibly too large) digits.
RECURSIVE BCarry(_, _, _, _)
BCarry(a, i, c, acc) ==
  IF i > Len(a)
  THEN IF c = 0 THEN acc ELSE BCarry(a, i + 1, c \div Base, Append(acc, c % Base))
  ELSE BCarry(a, i + 1, (a[i] + c) \div Base, Append(acc, (a[i] + c) % Base))

BAdd(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE BCarry([i \in 1..MaxLen(a, b) |-> Dig(a, i) + Dig(b, i)], 1, 0, <<>>)

RECURSIVE BConv(_, _, _, _, _)
BConv(a, b, k, i, hi) ==
  IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + BConv(a, b, k, i + 1, hi)

\* The shorter factor must not have more than 21 digits (84 decimal digits).
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF a = <<1>> THEN b ELSE IF b = <<1>> THEN a
  ELSE BCarry([k \in 1..(Len(a) + Len(b) - 1) |->
                BConv(a, b, k, MaxN(1, k + 1 - Len(b)), MinN(k, Len(a)))], 1, 0, <<>>)

\* -1, 0 or 1 as 0, 1, 2: is a smaller than, equal to or greater than b.
RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, i) ==
  IF i = 0 THEN 1
  ELSE IF a[i] < b[i] THEN 0 ELSE IF a[i] > b[i] THEN 2 ELSE BCmpAt(a, b, i - 1)
BCmp(a, b) ==
  IF Len(a) < Len(b) THEN 0 ELSE IF Len(a) > Len(b) THEN 2 ELSE BCmpAt(a, b, Len(a))

BLess(a, b) == BCmp(a, b) = 0
BLeq(a, b)  == BCmp(a, b) # 2
BMin(a, b)  == IF BLeq(a, b) THEN a ELSE b
BMax(a, b)  == IF BLeq(a, b) THEN b ELSE a

\* a - b for a >= b.
RECURSIVE BSubAt(_, _, _, _, _)
BSubAt(a, b, i, c, acc) ==
  IF i > Len(a) THEN BTrim(acc)
  ELSE LET d == Dig(b, i) + c IN
       IF a[i] >= d THEN BSubAt(a, b, i + 1, 0, Append(acc, a[i] - d))
       ELSE BSubAt(a, b, i + 1, 1, Append(acc, a[i] + Base - d))
BSub(a, b) == IF b = <<>> THEN a ELSE BSubAt(a, b, 1, 0, <<>>)
BDiff(a, b) == IF BLeq(a, b) THEN BSub(b, a) ELSE BSub(a, b)

(* 2^128 - 1 and 2^32 - 1 *)
U128Max == <<1455, 6821, 4317, 4607, 6337, 4634, 938, 6692, 2823, 340>>
U32Max  == <<7295, 9496, 42>>

BSat(a) == BMin(a, U128Max)
BSatAdd(a, b) == BSat(BAdd(a, b))
BSatMul(a, b) == BSat(BMul(a, b))

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN BOne ELSE BMul(a, BPow(a, n - 1))

LOCAL DigStr == <<"0","1","2","3","4","5","6","7","8","9">>
LOCAL Pad4(d) == DigStr[(d \div 1000) + 1] \o DigStr[((d \div 100) % 10) + 1] \o DigStr[((d \div 10) % 10) + 1] \o DigStr[(d % 10) + 1]
RECURSIVE BStrRest(_, _)
BStrRest(a, i) == IF i = 0 THEN "" ELSE Pad4(a[i]) \o BStrRest(a, i - 1)
BStr(a) == IF a = <<>> THEN "0" ELSE ToString(a[Len(a)]) \o BStrRest(a, Len(a) - 1)
ASSUME U128Max = BSub(BPow(<<2>>, 128), BOne)
ASSUME U32Max = BSub(BPow(<<2>>, 32), BOne)
=============================================================================
