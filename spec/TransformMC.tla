------------------------------ MODULE TransformMC ------------------------------
(* Chains of transformers on all short lists; laws that must hold at every list. *)
EXTENDS Asts, TLC
CONSTANTS MaxLen, MaxOps
VARIABLES li, n

Item(k) == StrAst(CASE k = 1 -> "a" [] k = 2 -> "b" [] k = 3 -> "c", <<32, 64 + k, 9>>, k, 1)
New == MkAst("new", "Int", "int", <<53>>, <<>>, 99, 99, 7)
T(t) == [t |-> t]
Chain(ts) == [t |-> ts]
Do(t, l) == Transform(t, l).li
Stock == { T("erase"), T("group"), T("pop"), T("xchg"), T("concat"), T("trim"), T("trims"), T("trime"),
           [t |-> "push", ast |-> New], [t |-> "prepend", ast |-> New], [t |-> "setval", ast |-> New],
           [t |-> "setop", n |-> 3], [t |-> "setcls", cn |-> "z"], [t |-> "setopcls", cn |-> "z", n |-> 3] }
         \union { [t |-> "roll", n |-> k] : k \in -2..2 }
Init == n = 0 /\ \E m \in 0..MaxLen : li \in [1..m -> { Item(k) : k \in 1..3 }]
Next == n < MaxOps /\ n' = n + 1 /\ \E t \in Stock :
          LET r == Transform(t, li) IN r.ok /\ Len(r.li) <= 6 /\ li' = r.li
Spec == Init /\ [][Next]_<<li, n>>

Roll(k, l) == Do([t |-> "roll", n |-> k], l)
Laws ==
  /\ \A a \in -4..4 : /\ Roll(-a, Roll(a, li)) = li
                      /\ \A b \in -2..2 : Roll(a, Roll(b, li)) = Roll(a + b, li)
                      /\ Len(Roll(a, li)) = Len(li)
  /\ Roll(Len(li), li) = li
  /\ Do(T("xchg"), Do(T("xchg"), li)) = li
  /\ Do(T("pop"), Do([t |-> "push", ast |-> New], li)) = li
  /\ Do(T("pop"), Roll(1, Do([t |-> "prepend", ast |-> New], li))) = li
  /\ (li # <<>> => Roll(1, li) = Tail(li) \o <<Head(li)>>)  \* "bottom |0|1|2| => |1|2|0|" for n = 1
  /\ Len(Do(T("group"), li)) = 1 /\ Kids(Do(T("group"), li)[1]) = li
  /\ Do(T("erase"), li) = <<>>
  /\ (ConcatOk(li) =>
        /\ Transform(T("trim"), li) = Transform(T("trime"), Do(T("trims"), li))
        /\ Transform(T("trim"), li) = Transform(T("trims"), Do(T("trime"), li))
        /\ Do(T("concat"), Do(T("concat"), li)) = Do(T("concat"), li)
        /\ Val(Do(T("concat"), li)[1]) = JoinVals(li))
=============================================================================
