--------------------------------- MODULE Cases ---------------------------------
(***************************************************************************)
(* Validation of recorded calls: a record holds a list of cases, each with   *)
(* its input and the outcome the real code gave.  CaseOk says whether the    *)
(* specification allows that outcome.                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
CONSTANTS CaseOk(_), Trace
VARIABLES ses, k

Init == ses \in 1..Len(Trace) /\ k = 0
Next == k < Len(Trace[ses].cases) /\ k' = k + 1 /\ UNCHANGED ses
Spec == Init /\ [][Next]_<<ses, k>>

(* every call came back (no hang, no crash, no panic) with an allowed outcome *)
Allowed == /\ Trace[ses].end = "done"
           /\ k > 0 => (Trace[ses].cases[k].pn = 0 /\ CaseOk(Trace[ses].cases[k]))

Alias == [session |-> Trace[ses].id, number |-> k,
          case |-> IF k > 0 THEN Trace[ses].cases[k] ELSE <<>>]
=============================================================================
