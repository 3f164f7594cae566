-------------------------------- MODULE SliceMC --------------------------------
(* All short histories of slice operations.  own[s]: identities of the cells a  *)
(* slice was given when it was made, tracked apart from offsets.                *)
EXTENDS Slice, FiniteSets, TLC
CONSTANT MaxOps
VARIABLES arr, sl, own, cells, n, lastop
vars == <<arr, sl, own, cells, n, lastop>>

Init == arr = <<>> /\ sl = <<>> /\ own = <<>> /\ cells = <<>> /\ n = 0 /\ lastop = <<>>
NewIds(m) == [i \in 1..m |-> Len(cells) + i]
Make == \E len \in 0..2, x \in 0..1 :
          /\ arr' = Append(arr, MakeArr(len + x))
          /\ sl' = Append(sl, [a |-> Len(arr) + 1, o |-> 0, n |-> len, c |-> len + x])
          /\ own' = Append(own, NewIds(len + x))
          /\ cells' = cells \o [i \in 1..(len + x) |-> Blank]
          /\ lastop' = <<"make">>
Resl == \E s \in 1..Len(sl) : \E x \in 0..sl[s].c, y \in 0..sl[s].c :
          /\ x <= y
          /\ sl' = Append(sl, Sub(sl[s], x, y))
          /\ own' = Append(own, SubSeq(own[s], x + 1, Len(own[s])))
          /\ lastop' = <<"sub">> /\ UNCHANGED <<arr, cells>>
Copy == \E s \in 1..Len(sl) : \E x \in 0..sl[s].n, y \in 0..sl[s].n :
          /\ x <= y
          /\ arr' = Append(arr, Cells(arr, sl[s], x, y))
          /\ sl' = Append(sl, [a |-> Len(arr) + 1, o |-> 0, n |-> y - x, c |-> y - x])
          /\ own' = Append(own, NewIds(y - x))
          /\ cells' = cells \o [i \in 1..(y - x) |-> cells[own[s][x + i]]]
          /\ lastop' = <<"copy">>
Set == \E s \in 1..Len(sl) : \E i \in 0..(sl[s].n - 1), v \in 1..2 :
          /\ arr' = Put(arr, sl[s], i, v)
          /\ cells' = [cells EXCEPT ![own[s][i + 1]] = v]
          /\ lastop' = <<"set", own[s][i + 1]>> /\ UNCHANGED <<sl, own>>
App == \E s \in 1..Len(sl) : \E v \in 1..2 :
          /\ Alone(sl, s) /\ sl[s].n < 3
          /\ arr' = ExtArr(arr, sl[s], v) /\ sl' = [sl EXCEPT ![s] = Ext(@)]
          /\ IF sl[s].n < sl[s].c
             THEN cells' = [cells EXCEPT ![own[s][sl[s].n + 1]] = v] /\ UNCHANGED own
             ELSE /\ cells' = Append(cells, v)
                  /\ own' = [own EXCEPT ![s] = Append(@, Len(cells) + 1)]
          /\ lastop' = <<"app">>
Next == n < MaxOps /\ n' = n + 1 /\ (Make \/ Resl \/ Copy \/ Set \/ App)
Spec == Init /\ [][Next]_vars

(* what a slice shows is what the cells given to it hold *)
Shows == \A s \in 1..Len(sl) : View(arr, sl[s]) = [i \in 1..sl[s].n |-> cells[own[s][i]]]
InBounds == \A s \in 1..Len(sl) : sl[s].o + sl[s].c <= Len(arr[sl[s].a]) /\ sl[s].n <= sl[s].c

(* equality of small trees is an equivalence and both definitions agree *)
Leaf(c, v, p, op) == <<c, "Int", "int", <<v>>, <<>>, p, 0, op>>
Leaves == { Leaf(c, v, p, op) : c \in {"x", "y"}, v \in {1, 2}, p \in {0, 1}, op \in {0, 1} }
NodeOf(k, ch, p) == <<"n", IF k = "cons" THEN "AstCons" ELSE "ListOfAst", k, <<>>, ch, p, 0, 0>>
Few == { l \in Leaves : l[1] = "x" \/ l[8] = 0 }
Trees == Few \union { NodeOf("list", <<>>, p) : p \in {0, 1} }
         \union { NodeOf(k, <<a, b>>, 0) : k \in {"list", "cons"}, a \in { l \in Few : l[6] = 0 }, b \in { l \in Few : l[8] = 0 } }
ASSUME \A a \in Trees, b \in Trees : SameTree(a, b) <=> SameRec(a, b)
ASSUME \A a \in Trees : SameTree(a, a)
=============================================================================
