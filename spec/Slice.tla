--------------------------------- MODULE Slice ---------------------------------
(***************************************************************************)
(* Slices over shared arrays, and equality of AST trees.                     *)
(*   arr  the arrays, each a sequence of cells                                *)
(*   sl   the slices, [a |-> array, o |-> offset, n |-> length, c |-> capacity] *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Blank == 0   \* the zero element

MakeArr(n) == [i \in 1..n |-> Blank]
View(arr, s) == [i \in 1..s.n |-> arr[s.a][s.o + i]]
At(arr, s, i) == arr[s.a][s.o + i + 1]
Put(arr, s, i, v) == [arr EXCEPT ![s.a][s.o + i + 1] = v]
Sub(s, x, y) == [a |-> s.a, o |-> s.o + x, n |-> y - x, c |-> s.c - x]
(* A slice that shares its array with no other may be extended: the new element *)
(* takes the next cell, which is made if the capacity is used up.               *)
Alone(sl, s) == \A t \in 1..Len(sl) : t # s => sl[t].a # sl[s].a
ExtArr(arr, s, v) == IF s.n < s.c THEN Put(arr, s, s.n, v)
                     ELSE [arr EXCEPT ![s.a] = SubSeq(@, 1, s.o + s.n) \o <<v>>]
Ext(s) == [s EXCEPT !.n = @ + 1, !.c = IF @ > s.n THEN @ ELSE s.n + 1]
Cells(arr, s, x, y) == [i \in 1..(y - x) |-> arr[s.a][s.o + x + i]]

(* A tree: <<class, type, kind, value, children, position, length, opcode>>. *)
(* Equal: same class, type and value, through pairs and lists; opcode and     *)
(* place in the source do not count.                                        *)
RECURSIVE Strip(_)
Strip(t) == << t[1], t[2], t[3], t[4], [i \in 1..Len(t[5]) |-> Strip(t[5][i])] >>
SameTree(a, b) == Strip(a) = Strip(b)

(* the same, node by node *)
RECURSIVE SameRec(_, _)
SameRec(a, b) == /\ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] = b[4]
                 /\ Len(a[5]) = Len(b[5])
                 /\ \A i \in 1..Len(a[5]) : SameRec(a[5][i], b[5][i])
=============================================================================
