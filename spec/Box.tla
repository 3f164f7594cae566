---------------------------------- MODULE Box ----------------------------------
(***************************************************************************)
(* Boxes: handles on places (variables, slice elements, map entries).        *)
(*   mem   place |-> value, Missing for a map entry that is not there          *)
(*   bx    the boxes made so far, records                                     *)
(*           k  "ref"  on a variable or slice element                          *)
(*              "map"  on a map entry through its container                    *)
(*              "not"  on a not-yet-initialised map entry                      *)
(*              "snap" taken out of a map value: keeps the entry as it was     *)
(*           p  the place      init  has it been written through this box      *)
(*           v  what a snapshot keeps                                          *)
(* A value is <<kind, bytes>>.                                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Missing == <<"missing", <<>>>>
Nil == <<"nil", <<>>>>

(* what a place of static type ty holds after nil was written to it *)
Zero(ty) == CASE ty \in {"int", "uint", "float"} -> <<ty, <<48>>>>
              [] ty = "bool" -> <<"bool", <<0>>>>
              [] ty \in {"str", "bytes"} -> <<ty, <<>>>>
              [] ty = "any" -> Nil
Stored(ty, v) == IF v = Nil THEN Zero(ty) ELSE v

NewBox(kind, p, v) == [k |-> kind, p |-> p, init |-> FALSE, v |-> v]

(* reading: the value, or panic *)
Panics(b) == b.k = "not" /\ ~b.init
Read(mem, b) == IF b.k = "snap" THEN b.v ELSE mem[b.p]

(* writing through a box, or directly *)
WriteMem(mem, types, p, v) == [mem EXCEPT ![p] = Stored(types[p], v)]
WriteBox(bx, n) == [bx EXCEPT ![n].init = TRUE]
=============================================================================
