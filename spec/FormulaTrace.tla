------------------------------ MODULE FormulaTrace ------------------------------
(* Texts given to both converters, with what they returned.                        *)
EXTENDS Formula, TLC, Json, IOUtils
VARIABLES ses, k
(* c.v: <<status "ok"/"err", sign, digits>> of the value, c.r: status, items;       *)
(* c.big: the value may not fit TLC's integers, and is computed limb by limb         *)
RECURSIVE DigitsOf(_, _)
DigitsOf(n, acc) == IF n = 0 THEN acc ELSE DigitsOf(n \div 10, <<n % 10>> \o acc)
Shown(n) == << IF n < 0 THEN 1 ELSE 0, DigitsOf(Abs(n), <<>>) >>
HasDiv(src) == \E j \in 1..Len(src) : src[j] = DIV
ValueOk(c, t) ==
  IF c.big = 0
  THEN LET v == Value(t) IN IF v[1] = 0 THEN c.v.st = "err" ELSE c.v.st = "ok" /\ <<c.v.sg, c.v.ds>> = Shown(v[2])
  ELSE LET v == BigValue(t) IN
       CASE v[1] = 0 -> c.v.st = "err"
         [] v[1] = 1 -> c.v.st = "ok" /\ c.v.sg = v[2] /\ FromDigits(c.v.ds, 10, <<>>) = v[3]
         [] OTHER -> HasDiv(c.src) \/ c.v.st = "ok"
RpnOk(c, t) == c.r.st = "ok" /\ c.r.items = Postfix(t)
Ok(c) ==
  LET e == TreeOf(c.src) t == e[2] IN
  IF e[1] = 0 THEN c.v.st = "err" /\ c.r.st = "err"
  ELSE IF InRange(t) THEN ValueOk(c, t) /\ RpnOk(c, t)
  ELSE IF Edge(t) THEN TRUE
  ELSE c.v.st = "err" /\ c.r.st = "err"
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
