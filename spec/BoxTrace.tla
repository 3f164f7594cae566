------------------------------- MODULE BoxTrace -------------------------------
(* Recorded histories of boxes against Box. *)
EXTENDS Box, TLC, Json, IOUtils
VARIABLES ses, k, mem, bx, good
vars == <<ses, k, mem, bx, good>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[ses]

Init == /\ ses \in 1..Len(Trace) /\ k = 0 /\ bx = <<>> /\ good = TRUE
        /\ mem = Trace[ses].mem

(* e: the recorded operation; out "ok"/"panic"; all: every place read directly *)
Next ==
  /\ k < Len(R.ev) /\ k' = k + 1 /\ UNCHANGED ses
  /\ LET e == R.ev[k + 1] IN
     CASE e.op = "box" ->
            /\ bx' = Append(bx, [NewBox(e.kind, e.p, mem[e.p]) EXCEPT !.init = e.init])
            /\ good' = (e.out = "ok") /\ UNCHANGED mem
       [] e.op = "sib" ->   \* a box of another entry of the same map, from a map box
            IF Panics(bx[e.b])
            THEN good' = (e.out = "panic") /\ UNCHANGED <<mem, bx>>
            ELSE bx' = Append(bx, NewBox("map", e.p, Missing)) /\ good' = (e.out = "ok") /\ UNCHANGED mem
       [] e.op = "idx" ->   \* an element of what it holds: as with an ordinary box
            /\ good' = IF Panics(bx[e.b]) THEN e.out = "panic" ELSE e.out = e.ordinary
            /\ UNCHANGED <<mem, bx>>
       [] e.op = "get" ->
            /\ good' = IF Panics(bx[e.b]) THEN e.out = "panic"
                       ELSE e.out = "ok" /\ e.v = Read(mem, bx[e.b])
            /\ UNCHANGED <<mem, bx>>
       [] e.op = "set" ->
            /\ mem' = WriteMem(mem, R.types, bx[e.b].p, e.v) /\ bx' = WriteBox(bx, e.b)
            /\ good' = (e.out = "ok")
       [] e.op = "put" ->
            /\ mem' = WriteMem(mem, R.types, e.p, e.v) /\ UNCHANGED bx
            /\ good' = (e.out = "ok")
  /\ TRUE

Spec == Init /\ [][Next]_vars

Conforms == /\ R.end = "done" /\ good
            /\ k > 0 => R.ev[k].all = mem
Alias == [session |-> R.id, number |-> k, mem |-> mem, boxes |-> bx,
          event |-> IF k > 0 THEN R.ev[k] ELSE <<>>]
=============================================================================
