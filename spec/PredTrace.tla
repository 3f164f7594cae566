-------------------------------- MODULE PredTrace --------------------------------
(* Recorded calls of the stock predicates of the stack-matching parser. *)
EXTENDS Asts, TLC, Json, IOUtils
VARIABLES ses, k
Ok2(c) == /\ (c.yes = 1) = Pred(c.pr, c.li)
          /\ c.again = c.yes
          /\ c.same = 1   \* the stack is as it was
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok2, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
