---------------------------------- MODULE Conv ----------------------------------
(***************************************************************************)
(* Which values texts denote: integers in a radix, decimal and other          *)
(* floating-point texts, characters.                                        *)
(***************************************************************************)
EXTENDS BigNat, Asts

DigitVal(b) == IF 48 <= b /\ b <= 57 THEN b - 48
               ELSE IF 97 <= b /\ b <= 122 THEN b - 87
               ELSE IF 65 <= b /\ b <= 90 THEN b - 55 ELSE 99
DigitVals(t) == [i \in 1..Len(t) |-> DigitVal(t[i])]
AllDigits(t, radix) == \A i \in 1..Len(t) : DigitVal(t[i]) < radix
IsSign(b) == b \in {43, 45}
Unsigned(t) == IF t # <<>> /\ IsSign(t[1]) THEN Tail(t) ELSE t
Negative(t) == t # <<>> /\ t[1] = 45

(* [ok, neg, n]: the integer a text denotes *)
IntText(t, radix, signs) ==
  LET body == IF t # <<>> /\ t[1] \in signs THEN Tail(t) ELSE t IN
  IF radix < 2 \/ radix > 36 \/ body = <<>> \/ ~AllDigits(body, radix)
  THEN [ok |-> FALSE, neg |-> FALSE, n |-> <<>>]
  ELSE [ok |-> TRUE, neg |-> Negative(t), n |-> FromDigits(DigitVals(body), radix, <<>>)]

Int64Text(t, radix) ==
  LET v == IntText(t, radix, {43, 45}) IN
  [v EXCEPT !.ok = @ /\ (IF v.neg THEN Cmp(v.n, Two63) <= 0 ELSE Cmp(v.n, Two63) < 0)]
Uint64Text(t, radix) ==
  LET v == IntText(t, radix, {43}) IN [v EXCEPT !.ok = @ /\ Cmp(v.n, Two64) < 0]

(* a value as its decimal text *)
DecValue(bytes) == [neg |-> Negative(bytes), n |-> FromDigits(DigitVals(Unsigned(bytes)), 10, <<>>)]
SameInt(v, bytes) == v.n = DecValue(bytes).n /\ (v.n # <<>> => v.neg = DecValue(bytes).neg)

(* ---- decimal floating-point texts: [+-] digits [. digits] [e [+-] digits] ---- *)
RECURSIVE DigitRun(_, _)
DigitRun(t, i) == IF i < Len(t) /\ 48 <= t[i + 1] /\ t[i + 1] <= 57 THEN DigitRun(t, i + 1) ELSE i
RECURSIVE SmallNat(_, _)
SmallNat(t, acc) == IF t = <<>> THEN acc ELSE SmallNat(Tail(t), IF acc > 9999 THEN acc ELSE acc * 10 + Head(t) - 48)

(* underscores may stand between two digits *)
IsDec(b) == 48 <= b /\ b <= 57
UnderscoresOk(t) == \A i \in 1..Len(t) : t[i] = 95 => (i > 1 /\ i < Len(t) /\ IsDec(t[i-1]) /\ IsDec(t[i+1]))
(* [ok, neg, d (digits as a natural), e (power of ten)] *)
FloatText(t0) ==
  LET t == IF UnderscoresOk(t0) THEN SelectSeq(t0, LAMBDA x : x # 95) ELSE t0
      b == Unsigned(t)
      i1 == DigitRun(b, 0)
      dot == i1 < Len(b) /\ b[i1 + 1] = 46
      i2 == IF dot THEN DigitRun(b, i1 + 1) ELSE i1
      nd == i1 + (IF dot THEN i2 - i1 - 1 ELSE 0)
      ex == i2 < Len(b) /\ b[i2 + 1] \in {69, 101}
      es == IF ex /\ i2 + 1 < Len(b) /\ IsSign(b[i2 + 2]) THEN i2 + 2 ELSE i2 + 1
      i3 == IF ex THEN DigitRun(b, es) ELSE i2
      ok == nd > 0 /\ i3 = Len(b) /\ (ex => i3 > es)
      ev == IF ex /\ ok THEN SmallNat(SubSeq(b, es + 1, i3), 0) ELSE 0
      sg == IF ex /\ b[i2 + 2] = 45 THEN -1 ELSE 1
      ds == SubSeq(b, 1, i1) \o (IF dot THEN SubSeq(b, i1 + 2, i2) ELSE <<>>)
  IN IF ~ok THEN [ok |-> FALSE, neg |-> FALSE, d |-> <<>>, e |-> 0]
     ELSE [ok |-> TRUE, neg |-> Negative(t), d |-> FromDigits(DigitVals(ds), 10, <<>>),
           e |-> sg * ev - (IF dot THEN i2 - i1 - 1 ELSE 0)]

MinExp == -1074
(* m * 2^x (m below 2^53, subnormal numbers below 2^53 * 2^MinExp) is the double nearest to d * 10^e; ties to even *)
Nearest(d, e, m, x) ==
  IF d = <<>> THEN m = <<>>
  ELSE LET z == IF m = <<>> THEN MinExp ELSE x
           w == IF z < MinExp THEN MinExp ELSE z  \* the last place is worth 2^w
           k == IF e < 0 THEN -e ELSE 0      \* multiply both sides by 10^k
           j == IF z < 1 THEN 1 - z ELSE 0   \* and by 2^j, so that half an ulp is a natural
           a == Pow2(Pow10(d, e + k), j)
           u == Pow10(Pow2(<<1>>, w + j - 1), k)                \* half an ulp
           b == Pow10(Pow2(m, z + j), k)
           c == Cmp(AbsDiff(a, b), u)
       IN c < 0 \/ (c = 0 /\ EvenNat(IF w = z THEN m ELSE Quotient(m, Pow2(<<1>>, w - z))))
(* out of range: at or above the middle between the largest double and the next power of two *)
TooLarge(d, e) == e > -400 /\ d # <<>> /\
  LET k == IF e < 0 THEN -e ELSE 0 IN
  Cmp(Pow10(d, e + k), Pow10(Pow2(Minus(Pow2(<<1>>, 54), <<1>>), 970), k)) >= 0

(* characters *)
RECURSIVE Nat32(_, _)
Nat32(t, acc) == IF t = <<>> THEN acc ELSE Nat32(Tail(t), acc * 10 + Head(t) - 48)
SmallInt(t) == Nat32(Unsigned(t), 0)  \* at most eight digits
Int32OK(v) == LET lim == Pow2(<<1>>, 31) IN IF v.neg THEN Cmp(v.n, lim) <= 0 ELSE Cmp(v.n, lim) < 0
=============================================================================
