------------------------------- MODULE SliceTrace -------------------------------
(* Recorded histories of AST slices against Slice. *)
EXTENDS Slice, TLC, Json, IOUtils
VARIABLES ses, k, arr, sl, good
vars == <<ses, k, arr, sl, good>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[ses]
Init == ses \in 1..Len(Trace) /\ k = 0 /\ arr = <<>> /\ sl = <<>> /\ good = TRUE

Next ==
  /\ k < Len(R.ev) /\ k' = k + 1 /\ UNCHANGED ses
  /\ LET e == R.ev[k + 1] IN
     CASE e.op = "make" ->
            /\ arr' = Append(arr, MakeArr(e.y))
            /\ sl' = Append(sl, [a |-> Len(arr) + 1, o |-> 0, n |-> e.x, c |-> e.y])
            /\ good' = TRUE
       [] e.op = "sub" ->
            /\ sl' = Append(sl, Sub(sl[e.s], e.x, e.y)) /\ UNCHANGED arr /\ good' = TRUE
       [] e.op = "copy" ->
            /\ arr' = Append(arr, Cells(arr, sl[e.s], e.x, e.y))
            /\ sl' = Append(sl, [a |-> Len(arr) + 1, o |-> 0, n |-> e.y - e.x, c |-> e.y - e.x])
            /\ good' = TRUE
       [] e.op = "set" -> arr' = Put(arr, sl[e.s], e.x, e.v) /\ UNCHANGED sl /\ good' = TRUE
       [] e.op = "app" -> /\ arr' = ExtArr(arr, sl[e.s], e.v)
                          /\ sl' = [sl EXCEPT ![e.s] = Ext(@)]
                          /\ good' = Alone(sl, e.s)
       [] e.op = "get" -> good' = (e.v = At(arr, sl[e.s], e.x)) /\ UNCHANGED <<arr, sl>>
       [] e.op = "len" -> good' = (e.v = sl[e.s].n) /\ UNCHANGED <<arr, sl>>

Spec == Init /\ [][Next]_vars
Conforms == /\ R.end = "done" /\ good
            /\ k > 0 => R.ev[k].all = [s \in 1..Len(sl) |-> View(arr, sl[s])]
Alias == [session |-> R.id, number |-> k, arr |-> arr, sl |-> sl,
          event |-> IF k > 0 THEN R.ev[k] ELSE <<>>]
=============================================================================
