--------------------------------- MODULE BoxMC ---------------------------------
(* All histories of a small world: a variable, two map entries; boxes of each    *)
(* kind.  The log of writes says independently what a read must give.            *)
EXTENDS Box, TLC
CONSTANT MaxOps
VARIABLES mem, bx, log, n

Places == 1..3                   \* 1: variable of any type, 2: int map entry, 3: any map entry (missing at first)
Types == <<"any", "int", "any">>
Values == { Nil, <<"int", <<49>>>>, <<"str", <<97>>>> }
Fits(p, v) == Types[p] = "any" \/ v = Nil \/ v[1] = Types[p]

Init == /\ mem = << Nil, <<"int", <<48>>>>, Missing >>
        /\ bx = <<>> /\ log = <<>> /\ n = 0
Kinds(p) == IF p = 1 THEN {"ref"} ELSE {"map", "not", "snap"}
Make == /\ Len(bx) < 2
        /\ \E p \in Places : \E k \in Kinds(p) :
             /\ k = "snap" => mem[p] # Missing
             /\ bx' = Append(bx, NewBox(k, p, mem[p]))
        /\ UNCHANGED <<mem, log>>
Write == \E b \in 1..Len(bx) : \E v \in Values :
           /\ bx[b].k # "snap" /\ Fits(bx[b].p, v)
           /\ mem' = WriteMem(mem, Types, bx[b].p, v)
           /\ bx' = WriteBox(bx, b)
           /\ log' = Append(log, [p |-> bx[b].p, v |-> v, b |-> b])
Direct == \E p \in Places : \E v \in Values :
           /\ Fits(p, v)
           /\ mem' = WriteMem(mem, Types, p, v)
           /\ log' = Append(log, [p |-> p, v |-> v, b |-> 0])
           /\ UNCHANGED bx
Next == n < MaxOps /\ n' = n + 1 /\ (Make \/ Write \/ Direct)
Spec == Init /\ [][Next]_<<mem, bx, log, n>>

Writes(p) == { k \in 1..Len(log) : log[k].p = p }
LastWrite(p) == CHOOSE k \in Writes(p) : \A j \in Writes(p) : j <= k
(* every box on a place reads the last value written there, typed *)
LastWritten ==
  \A b \in 1..Len(bx) :
    (bx[b].k # "snap" /\ Writes(bx[b].p) # {}) =>
      LET v == log[LastWrite(bx[b].p)].v IN
      Read(mem, bx[b]) = (IF v = Nil /\ Types[bx[b].p] = "int" THEN <<"int", <<48>>>> ELSE v)
(* uninitialised boxes panic exactly until they have been written through *)
UntilWritten ==
  \A b \in 1..Len(bx) : bx[b].k = "not" =>
    (Panics(bx[b]) <=> ~ \E k \in 1..Len(log) : log[k].b = b)
(* nothing that was written goes away *)
Kept == \A p \in Places : Writes(p) # {} => mem[p] # Missing
=============================================================================
