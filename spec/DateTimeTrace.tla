-------------------------------- MODULE DateTimeTrace --------------------------------
(* Recorded calls of the date and time recognisers and converters. *)
EXTENDS DateTime, Asts, TLC, Json, IOUtils
VARIABLES ses, k

Class(form) == CASE form = "date" -> "DateStr" [] form = "time" -> "TimeStr" [] form = "datetime" -> "DateTimeStr"
ValueClass(form) == CASE form = "date" -> "Date" [] form = "time" -> "Time" [] form = "datetime" -> "DateTime"
Converted(v, form, i) ==
  /\ v.st = "value" /\ v.cn = ValueClass(form) /\ v.ty = "Any" /\ v.utc = 1
  /\ v.d = i.d /\ v.s = i.s /\ v.n = i.n
CaseGood(c) ==
  LET r == Scan(c.form, c.src, c.p) IN
  /\ c.o.ok = 1
  /\ IF r.e < 0 THEN c.o.st = "U" /\ c.o.n = 0 /\ c.o.as = <<>> /\ c.v.st = "none"
     ELSE /\ c.o.st = "M" /\ c.o.n = r.e - c.p /\ Len(c.o.as) = 1
          /\ Cls(c.o.as[1]) = Class(c.form) /\ Typ(c.o.as[1]) = "String" /\ VKind(c.o.as[1]) = "str"
          /\ Val(c.o.as[1]) = r.t /\ Pos(c.o.as[1]) = c.p
          /\ LET i == Instant(c.form, r.t) IN
             CASE i.v = "yes" -> Converted(c.v, c.form, i)
               [] i.v = "may" -> c.v.st = "error" \/ Converted(c.v, c.form, i)
               [] i.v = "free" -> c.v.st \in {"error", "value"}
               [] i.v = "no" -> c.v.st = "error"
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- CaseGood, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
