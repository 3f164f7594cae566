--------------------------------- MODULE BigNat ---------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32 bits: limbs base 10000, least first, no    *)
(* leading zero limbs (zero is <<>>).                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

LimbBase == 10000

(* carry c (any natural) added to the limbs of a times m, m <= 100000 *)
RECURSIVE MulAddFrom(_, _, _, _)
MulAddFrom(a, m, c, k) ==
  IF k > Len(a)
  THEN IF c = 0 THEN <<>> ELSE <<c % LimbBase>> \o MulAddFrom(a, m, c \div LimbBase, k)
  ELSE LET v == a[k] * m + c IN <<v % LimbBase>> \o MulAddFrom(a, m, v \div LimbBase, k + 1)
RECURSIVE TrimTop(_)
TrimTop(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN TrimTop(SubSeq(a, 1, Len(a) - 1)) ELSE a
MulAdd(a, m, c) == TrimTop(MulAddFrom(a, m, c, 1))

RECURSIVE Scale(_, _, _)  \* a * m^k
Scale(a, m, k) == IF k <= 0 THEN a ELSE Scale(MulAdd(a, m, 0), m, k - 1)
(* powers with fewer steps *)
Pow2(a, k) == Scale(Scale(a, 4096, k \div 12), 2, k % 12)
Pow10(a, k) == IF a = <<>> THEN a ELSE [i \in 1..(IF k < 4 THEN 0 ELSE k \div 4) |-> 0] \o Scale(a, 10, k % 4)

RECURSIVE FromDigits(_, _, _)  \* digits, radix, value so far
FromDigits(ds, radix, acc) ==
  IF ds = <<>> THEN acc ELSE FromDigits(Tail(ds), radix, MulAdd(acc, radix, Head(ds)))

Limb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k = 0 THEN 0
                    ELSE IF Limb(a, k) > Limb(b, k) THEN 1
                    ELSE IF Limb(a, k) < Limb(b, k) THEN -1 ELSE CmpFrom(a, b, k - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN 1 ELSE -1) ELSE CmpFrom(a, b, Len(a))

RECURSIVE SubFrom(_, _, _, _)  \* a - b for a >= b, borrow w
SubFrom(a, b, w, k) ==
  IF k > Len(a) THEN <<>>
  ELSE LET v == a[k] - Limb(b, k) - w IN
       IF v < 0 THEN <<v + LimbBase>> \o SubFrom(a, b, 1, k + 1) ELSE <<v>> \o SubFrom(a, b, 0, k + 1)
Minus(a, b) == TrimTop(SubFrom(a, b, 0, 1))
AbsDiff(a, b) == IF Cmp(a, b) >= 0 THEN Minus(a, b) ELSE Minus(b, a)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, c, k) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET v == Limb(a, k) + Limb(b, k) + c IN
       <<v % LimbBase>> \o AddFrom(a, b, v \div LimbBase, k + 1)
Plus(a, b) == AddFrom(a, b, 0, 1)
RECURSIVE Times(_, _)
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
               ELSE LET rest == Times(a, Tail(b)) IN
                    Plus(MulAdd(a, b[1], 0), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
(* the largest q in lo..hi with b * q <= r *)
RECURSIVE DigitOf(_, _, _, _)
DigitOf(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF Cmp(MulAdd(b, m, 0), r) <= 0 THEN DigitOf(r, b, m, hi) ELSE DigitOf(r, b, lo, m - 1)
(* <<quotient, remainder>> of the top k limbs gone through, b # 0 *)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, b, k, r) ==
  IF k = 0 THEN <<<<>>, r>>
  ELSE LET r1 == TrimTop(<<a[k]>> \o r)
           q == DigitOf(r1, b, 0, LimbBase - 1)
           rest == DivFrom(a, b, k - 1, Minus(r1, MulAdd(b, q, 0))) IN
       <<Append(rest[1], q), rest[2]>>
Quotient(a, b) == TrimTop(DivFrom(a, b, Len(a), <<>>)[1])
EvenNat(a) == a = <<>> \/ a[1] % 2 = 0

Two63 == Pow2(<<1>>, 63)
Two64 == Pow2(<<1>>, 64)
=============================================================================
