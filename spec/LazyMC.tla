--------------------------------- MODULE LazyMC ---------------------------------
(* All interleavings of first uses; every goroutine makes MaxCalls calls. *)
EXTENDS Lazy, TLC
CONSTANT MaxCalls
VARIABLE left
Init == LInit /\ left = [g \in Procs |-> MaxCalls]
CallSome(g) == /\ left[g] > 0 /\ Len(stk[g]) = 0
               /\ left' = [left EXCEPT ![g] = @ - 1]
               /\ \E n \in Parsers : CallIt(n, g)
BeginSome(g) == /\ UNCHANGED left /\ \E n \in Parsers : Begin(n, g)
EndSome(g)  == /\ UNCHANGED left /\ \E n \in Parsers : by[n] = g /\ End(n)
RunSome(g)  == /\ UNCHANGED left /\ \E n \in Parsers : Run(n, g)
Done == (\A g \in Procs : left[g] = 0 /\ stk[g] = <<>>) /\ UNCHANGED <<lvars, left>>
Next == (\E g \in Procs : CallSome(g) \/ BeginSome(g) \/ EndSome(g) \/ RunSome(g)) \/ Done
Spec == Init /\ [][Next]_<<lvars, left>>
        /\ \A g \in Procs : WF_<<lvars, left>>(CallSome(g) \/ BeginSome(g) \/ EndSome(g) \/ RunSome(g))
(* nobody waits for ever, all calls are served *)
AllServed == <>[](\A g \in Procs : stk[g] = <<>> /\ left[g] = 0)
Once2 == OnceOnly /\ NotBeforeUse
=============================================================================
