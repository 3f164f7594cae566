-------------------------------- MODULE Formula --------------------------------
(***************************************************************************)
(* Integer expressions: what is one, the tree it stands for, its value and   *)
(* its postfix form.                                                        *)
(*                                                                          *)
(* A literal is an optional sign, then digits (with "_" between, dropped;    *)
(* "0" is followed by no other digit), not directly followed by a word        *)
(* character.  A tree is <<"lit", digits>>, <<"neg", t>> or              *)
(* <<"bin", op, l, r>> with op one of the bytes + - * /.                     *)
(***************************************************************************)
EXTENDS Lexical, BigNat

PLUS == 43  MINUS == 45  TIMES == 42  DIV == 47  OPEN == 40  CLOSE == 41

(* ---- texts to tokens ------------------------------------------------------ *)
(* Whitespace stands before and after every token.  A sign directly before a    *)
(* digit belongs to the literal only where a literal may begin and as far as    *)
(* it is a "+"; a "-" there may as well be the unary operator (same value).     *)
RECURSIVE SkipSpace(_, _)
SkipSpace(src, i) == LET d == DecodeRune(src, i) IN
                     IF d[2] > 0 /\ InRanges(d[1], WSRanges) THEN SkipSpace(src, i + d[2]) ELSE i

Bad == << -1, <<"lit", <<>>>> >>   \* nothing here
(* digits from offset i: <<end, digits>>, end -1 if there is no literal *)
DigitsAt(src, i) ==
  LET e == IF i < Len(src) /\ Digit(src[i + 1]) THEN NumberEnd("IntegerNumberStr", src, i) ELSE -1 IN
  IF e = -1 \/ (e < Len(src) /\ IsWord(DecodeRune(src, e)[1])) THEN <<-1, <<>>>>
  ELSE <<e, [k \in 1..Len(NoSeparators(SubSeq(src, i + 1, e))) |-> NoSeparators(SubSeq(src, i + 1, e))[k] - 48]>>

(* ---- by recursive descent: <<end, tree>> ------------------------------------- *)
RECURSIVE ExprAt(_, _), SumRest(_, _, _), TermAt(_, _), TermRest(_, _, _), FactorAt(_, _)
At(src, i, bs) == i < Len(src) /\ src[i + 1] \in bs
FactorAt(src, i) ==
  IF At(src, i, {MINUS})
  THEN LET f == FactorAt(src, SkipSpace(src, i + 1)) IN IF f[1] = -1 THEN Bad ELSE <<f[1], <<"neg", f[2]>>>>
  ELSE IF At(src, i, {OPEN})
  THEN LET e == ExprAt(src, SkipSpace(src, i + 1)) IN
       IF e[1] = -1 \/ ~At(src, e[1], {CLOSE}) THEN Bad ELSE <<SkipSpace(src, e[1] + 1), e[2]>>
  ELSE LET d == DigitsAt(src, IF At(src, i, {PLUS}) THEN i + 1 ELSE i) IN
       IF d[1] = -1 THEN Bad ELSE <<SkipSpace(src, d[1]), <<"lit", d[2]>>>>
TermRest(src, i, t) ==
  IF ~At(src, i, {TIMES, DIV}) THEN <<i, t>>
  ELSE LET f == FactorAt(src, SkipSpace(src, i + 1)) IN
       IF f[1] = -1 THEN Bad ELSE TermRest(src, f[1], <<"bin", src[i + 1], t, f[2]>>)
TermAt(src, i) == LET f == FactorAt(src, i) IN IF f[1] = -1 THEN Bad ELSE TermRest(src, f[1], f[2])
SumRest(src, i, t) ==
  IF ~At(src, i, {PLUS, MINUS}) THEN <<i, t>>
  ELSE LET f == TermAt(src, SkipSpace(src, i + 1)) IN
       IF f[1] = -1 THEN Bad ELSE SumRest(src, f[1], <<"bin", src[i + 1], t, f[2]>>)
ExprAt(src, i) == LET f == TermAt(src, i) IN IF f[1] = -1 THEN Bad ELSE SumRest(src, f[1], f[2])

(* <<1, tree>> or <<0, ..>> *)
TreeOf(src) == LET e == ExprAt(src, SkipSpace(src, 0)) IN
               IF e[1] = Len(src) THEN <<1, e[2]>> ELSE <<0, e[2]>>

(* ---- literals ------------------------------------------------------------------ *)
RECURSIVE NoZeros(_)
NoZeros(ds) == IF ds # <<>> /\ ds[1] = 0 THEN NoZeros(Tail(ds)) ELSE ds
RECURSIVE SmallOf(_, _)
SmallOf(ds, acc) == IF ds = <<>> THEN acc ELSE SmallOf(Tail(ds), acc * 10 + Head(ds))
Max63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
Min63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
LessEq(a, b) ==  \* digits without leading zeros
  \/ Len(a) < Len(b)
  \/ Len(a) = Len(b) /\ (a = b \/ \E k \in 1..Len(a) : a[k] < b[k] /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1))
RECURSIVE Literals(_)
Literals(t) == CASE t[1] = "lit" -> {NoZeros(t[2])}
                 [] t[1] = "neg" -> Literals(t[2])
                 [] OTHER -> Literals(t[3]) \cup Literals(t[4])
InRange(t) == \A ds \in Literals(t) : LessEq(ds, Max63)
(* 2^63 with a minus may be taken for the literal -2^63 *)
Edge(t) == Min63 \in Literals(t) /\ \A ds \in Literals(t) : LessEq(ds, Min63)

(* ---- value: <<1, n>>, or <<0, 0>> for a division by zero -------------------------- *)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Truncated(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE 0 - (Abs(a) \div Abs(b))
Apply(op, a, b) == CASE op = PLUS -> <<1, a + b>>
                     [] op = MINUS -> <<1, a - b>>
                     [] op = TIMES -> <<1, a * b>>
                     [] op = DIV -> IF b = 0 THEN <<0, 0>> ELSE <<1, Truncated(a, b)>>
RECURSIVE Value(_)
Value(t) ==
  CASE t[1] = "lit" -> <<1, SmallOf(t[2], 0)>>
    [] t[1] = "neg" -> LET v == Value(t[2]) IN <<v[1], 0 - v[2]>>
    [] OTHER -> LET a == Value(t[3]) b == Value(t[4]) IN
                IF a[1] = 0 \/ b[1] = 0 THEN <<0, 0>> ELSE Apply(t[2], a[2], b[2])

(* ---- the same for numbers of any size: <<status, sign, magnitude>>; status 0 for a *)
(* division by zero, 2 when something on the way does not fit 64 bits                *)
Fits(sg, m) == Cmp(m, Two63) < 0 \/ (sg = 1 /\ m = Two63)
Big(sg, m) == IF Fits(sg, m) THEN <<1, IF m = <<>> THEN 0 ELSE sg, m>> ELSE <<2, 0, <<>>>>
BigSum(a, b) == IF a[2] = b[2] THEN Big(a[2], Plus(a[3], b[3]))
                ELSE IF Cmp(a[3], b[3]) >= 0 THEN Big(a[2], Minus(a[3], b[3])) ELSE Big(b[2], Minus(b[3], a[3]))
Flip(a) == Big(1 - a[2], a[3])
BigApply(op, a, b) ==
  CASE op = DIV /\ b[1] = 1 /\ b[3] = <<>> -> <<0, 0, <<>>>>
    [] a[1] = 2 \/ b[1] = 2 -> <<2, 0, <<>>>>
    [] op = PLUS -> BigSum(a, b)
    [] op = MINUS -> BigSum(a, <<1, 1 - b[2], b[3]>>)
    [] op = TIMES -> Big(IF a[2] = b[2] THEN 0 ELSE 1, Times(a[3], b[3]))
    [] op = DIV -> Big(IF a[2] = b[2] THEN 0 ELSE 1, Quotient(a[3], b[3]))
RECURSIVE BigValue(_)
BigValue(t) ==
  CASE t[1] = "lit" -> Big(0, FromDigits(t[2], 10, <<>>))
    [] t[1] = "neg" -> LET v == BigValue(t[2]) IN IF v[1] = 1 THEN Flip(v) ELSE v
    [] OTHER -> LET a == BigValue(t[3]) b == BigValue(t[4]) IN
                IF a[1] = 0 \/ b[1] = 0 THEN <<0, 0, <<>>>> ELSE BigApply(t[2], a, b)

(* ---- postfix: items <<"num", sign, digits>> and <<"op", byte, <<>>>> ------------------ *)
Num(sg, ds) == <<"num", IF NoZeros(ds) = <<>> THEN 0 ELSE sg, NoZeros(ds)>>
Op(b) == <<"op", b, <<>>>>
RECURSIVE Postfix(_)
Postfix(t) ==
  CASE t[1] = "lit" -> << Num(0, t[2]) >>
    [] t[1] = "neg" -> LET p == Postfix(t[2]) IN
                       IF Len(p) = 1 THEN << Num(1 - p[1][2], p[1][3]) >> ELSE Append(p, Op(MINUS))
    [] OTHER -> Postfix(t[3]) \o Postfix(t[4]) \o << Op(t[2]) >>

(* ---- the same by a machine over the tokens: two stacks --------------------------- *)
(* tokens: <<"n", k>>, bytes as <<"o", b>>; the state: values, pending operators,      *)
(* whether an operand is wanted, and the postfix output (operands by number)          *)
Start0 == [vals |-> <<>>, ops |-> <<>>, want |-> TRUE, out |-> <<>>, ok |-> TRUE, zero |-> FALSE]
NEG == 126
Level(b) == CASE b = NEG -> 3 [] b \in {TIMES, DIV} -> 2 [] b \in {PLUS, MINUS} -> 1 [] OTHER -> 0
Last(s) == s[Len(s)]
But(s) == SubSeq(s, 1, Len(s) - 1)
Pop1(q) == \* the top operator is applied
  LET b == Last(q.ops) IN
  IF b = NEG THEN [q EXCEPT !.ops = But(@), !.vals = Append(But(@), 0 - Last(@)), !.out = Append(@, NEG)]
  ELSE LET v == Apply(b, Last(But(q.vals)), Last(q.vals)) IN
       [q EXCEPT !.ops = But(@), !.vals = Append(But(But(@)), v[2]), !.out = Append(@, b),
                 !.zero = @ \/ v[1] = 0]
RECURSIVE Reduce(_, _)
Reduce(q, level) == IF q.ops # <<>> /\ Last(q.ops) # OPEN /\ Level(Last(q.ops)) >= level
                    THEN Reduce(Pop1(q), level) ELSE q
Token(q, tk) ==
  IF ~q.ok THEN q
  ELSE IF tk[1] = "n"
  THEN IF q.want THEN [q EXCEPT !.vals = Append(@, tk[2]), !.out = Append(@, tk[2]), !.want = FALSE]
       ELSE [q EXCEPT !.ok = FALSE]
  ELSE LET b == tk[2] IN
  CASE q.want /\ b = MINUS -> [q EXCEPT !.ops = Append(@, NEG)]
    [] q.want /\ b = OPEN -> [q EXCEPT !.ops = Append(@, OPEN)]
    [] ~q.want /\ b \in {PLUS, MINUS, TIMES, DIV} ->
         LET r == Reduce(q, Level(b)) IN [r EXCEPT !.ops = Append(@, b), !.want = TRUE]
    [] ~q.want /\ b = CLOSE ->
         LET r == Reduce(q, 1) IN IF r.ops = <<>> THEN [q EXCEPT !.ok = FALSE] ELSE [r EXCEPT !.ops = But(@)]
    [] OTHER -> [q EXCEPT !.ok = FALSE]
Finish(q) == IF ~q.ok \/ q.want THEN [q EXCEPT !.ok = FALSE]
             ELSE LET r == Reduce(q, 1) IN IF r.ops = <<>> THEN r ELSE [r EXCEPT !.ok = FALSE]
=============================================================================
