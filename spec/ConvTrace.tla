------------------------------- MODULE ConvTrace -------------------------------
(* Recorded conversions. *)
EXTENDS Conv, TLC, Json, IOUtils
VARIABLES ses, k

Text1(li) == JoinRange(li, 1, Len(li))
OneOut(c, tys, kind) ==
  /\ c.ok = 1 /\ Len(c.out) = 1
  /\ Typ(c.out[1]) \in tys /\ VKind(c.out[1]) = kind
  /\ Cls(c.out[1]) = Cls(c.li[1]) /\ Pos(c.out[1]) = Pos(c.li[1]) /\ Ln(c.out[1]) = Ln(c.li[1])
Num(c, v, ty, kind) ==
  IF c.li = <<>> \/ ~ConcatOk(c.li) \/ ~v.ok THEN c.ok = 0
  ELSE OneOut(c, {ty}, kind) /\ SameInt(v, Val(c.out[1]))

Flo(c) ==
  LET t == Text1(c.li) v == FloatText(t) IN
  IF ~v.ok THEN c.ok = 0
  ELSE LET mag == 4 * Len(v.d) + v.e IN  \* about the number of digits before the point
       IF v.d # <<>> /\ (mag - 4 > 310 \/ (mag > 300 /\ TooLarge(v.d, v.e))) THEN c.ok = 0
       ELSE /\ OneOut(c, {"Float"}, "float")
            /\ IF v.d = <<>> \/ mag < -330 THEN c.m = <<>>
               ELSE /\ c.m # <<>> => c.neg = (IF v.neg THEN 1 ELSE 0)
                    /\ Nearest(v.d, v.e, FromDigits(DigitVals(c.m), 10, <<>>), c.x)

First(c, kind) == c.li # <<>> /\ VKind(c.li[1]) = kind
Ok3(c) ==
  /\ c.same = 1 /\ c.again = 1
  /\ CASE c.f = "int"   -> Num(c, Int64Text(Text1(c.li), c.radix), "Int", "int")
       [] c.f = "uint"  -> Num(c, Uint64Text(Text1(c.li), c.radix), "Uint", "uint")
       [] c.f = "float" -> IF c.li = <<>> \/ ~ConcatOk(c.li) THEN c.ok = 0 ELSE Flo(c)
       [] c.f = "runeint" ->
            IF First(c, "int") /\ Int32OK(DecValue(Val(c.li[1])))
            THEN OneOut(c, {"Any", "Rune"}, "rune") /\ Val(c.out[1]) = Val(c.li[1]) ELSE c.ok = 0
       [] c.f = "intrune" ->
            IF First(c, "rune") THEN OneOut(c, {"Int"}, "int") /\ Val(c.out[1]) = Val(c.li[1]) ELSE c.ok = 0
       [] c.f \in {"strint", "strrune"} ->
            IF First(c, IF c.f = "strint" THEN "int" ELSE "rune") /\ Int32OK(DecValue(Val(c.li[1])))
            THEN OneOut(c, {"String"}, "str") /\ Val(c.out[1]) =
                   (IF Len(Val(c.li[1])) > 8 THEN EncodeRune(-1)
                    ELSE EncodeRune((IF Negative(Val(c.li[1])) THEN -1 ELSE 1) * SmallInt(Val(c.li[1]))))
            ELSE c.ok = 0
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok3, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
