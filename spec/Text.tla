-------------------------------- MODULE Text --------------------------------
(* Operators on strings; TLC treats a string like a sequence of characters.   *)
EXTENDS Naturals, Sequences, TLC

LOCAL Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(s, i) == SubSeq(s, i, i)
LOCAL CodeOf == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |->
                   CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]
Code(c) == IF c \in DOMAIN CodeOf THEN CodeOf[c] ELSE 200

\* Byte-wise order of two (ASCII) strings.
RECURSIVE StrLessAt(_, _, _)
StrLessAt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN StrLessAt(a, b, i + 1)
  ELSE Code(Ch(a, i)) < Code(Ch(b, i))
StrLess(a, b) == StrLessAt(a, b, 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p)   == \E i \in 0..(Len(s) - Len(p)) : Len(s) >= Len(p) /\ SubSeq(s, i + 1, i + Len(p)) = p

RECURSIVE Strip_(_, _)
Strip_(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "_" THEN Strip_(s, i + 1) ELSE Ch(s, i) \o Strip_(s, i + 1)
NoUnderscore(s) == IF Contains(s, "_") THEN Strip_(s, 1) ELSE s

RECURSIVE Join(_, _)
Join(ss, d) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
               ELSE ss[1] \o d \o Join(Tail(ss), d)

(* The patterns used for the pallet and the extrinsic filter.                  *)
RECURSIVE Matches(_, _)
Matches(s, p) ==
  CASE p.k = "all"  -> TRUE
    [] p.k = "sub"  -> Contains(s, p.s)
    [] p.k = "pre"  -> StartsWith(s, p.s)
    [] p.k = "suf"  -> EndsWith(s, p.s)
    [] p.k = "full" -> s = p.s
    [] p.k = "not"  -> ~Contains(s, p.s)
    [] p.k = "hard" -> TRUE                \* if the engine does not give up
    [] p.k = "alt"  -> \E i \in 1..Len(p.ps) : Matches(s, p.ps[i])
=============================================================================
