----------------------------- MODULE TransformTrace -----------------------------
(* Recorded calls of the stock transformers. *)
EXTENDS Asts, TLC, Json, IOUtils
VARIABLES ses, k
Ok2(c) == LET r == Transform(c.t, c.li) IN
         /\ (c.ok = 1) = r.ok
         /\ r.ok => c.out = r.li
         /\ (~r.ok /\ r.m # "lib") => c.m = r.m
         /\ c.same = 1   \* the list given is as it was
         /\ c.again = 1  \* the same call gives the same result
         /\ c.kept = 1   \* and later calls leave the result alone
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok2, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
