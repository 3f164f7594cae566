------------------------------- MODULE ScaleTrace -------------------------------
(* Recorded outcomes of large parametric grammars; for the small sizes the      *)
(* grammar comes along, and the closed form is compared with what it denotes.    *)
EXTENDS Scale, TLC, Json, IOUtils
VARIABLES ses, k
D == INSTANCE Peg
Ok2(c) ==
  LET w == Want(c) IN
  /\ Fits(c, w)
  /\ c.small = 1 =>
       LET r == D!Eval(c.sess, c.node, [p |-> 0, a |-> c.a0, s |-> 1, u |-> 1])
       IN /\ r.k = w.k
          /\ w.k = "M" => r.c.p = w.p /\ r.c.a = w.a
          /\ w.k = "E" => r.m = w.m /\ r.c.p = w.p
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok2, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == [session |-> Recorded[ses].id, number |-> k,
          kind |-> IF k > 0 THEN <<Recorded[ses].cases[k].kind, Recorded[ses].cases[k].n, Recorded[ses].cases[k].m>> ELSE <<>>]
=============================================================================
