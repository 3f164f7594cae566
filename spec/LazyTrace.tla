-------------------------------- MODULE LazyTrace --------------------------------
(* Recorded orders of calls, factory runs and entries are behaviours of Lazy. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES ses, i, built, by, stk, nb
Trace == ndJsonDeserialize(IOEnv.TRACE)
L == INSTANCE Lazy WITH Parsers <- 1..150, Procs <- 1..8
vars == <<ses, i, built, by, stk, nb>>
Ev == Trace[ses].ev
Init == ses \in 1..Len(Trace) /\ i = 0 /\ L!LInit
Next ==
  \/ /\ i < Len(Ev) /\ i' = i + 1 /\ UNCHANGED ses
     /\ LET e == Ev[i + 1] IN
        \/ e[1] = "call"  /\ L!CallIt(e[2], e[3])
        \/ e[1] = "begin" /\ \E g \in 1..Trace[ses].n : L!Begin(e[2], g)
                          /\ \A h \in 1..(g - 1) : L!Want(h) # e[2]
        \/ e[1] = "end"   /\ L!End(e[2])
        \/ e[1] = "run"   /\ L!Run(e[2], e[3])
  \/ i = Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Once == L!OnceOnly /\ L!NotBeforeUse
Alias == [session |-> Trace[ses].id, consumed |-> i, built |-> built, stk |-> stk,
          next |-> IF i < Len(Ev) THEN Ev[i + 1] ELSE <<>>]
=============================================================================
