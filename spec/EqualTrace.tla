------------------------------- MODULE EqualTrace -------------------------------
(* Recorded comparisons of AST trees. *)
EXTENDS Slice, TLC, Json, IOUtils
VARIABLES ses, k
Ok(c) == /\ (c.eq = 1) = SameTree(c.a, c.b)
         /\ c.rev = c.eq
         /\ c.self = 1
         /\ c.same = 1  \* operands untouched
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
