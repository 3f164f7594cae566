---------------------------------- MODULE Lazy ----------------------------------
(***************************************************************************)
(* Lazily built parsers shared by several goroutines.  A goroutine calls the  *)
(* parser; the first one to get there builds it, the others wait until it is  *)
(* built; everybody then runs what was built.  Calls nest (recursive rules),  *)
(* so each goroutine has a stack of the parsers it has called but not run.    *)
(*                                                                          *)
(* Shown actions: call(n, g), begin(n), end(n) of the factory, run(n, g).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Parsers, Procs

VARIABLES built,   \* parser |-> "no" / "building" / "yes"
          by,      \* parser |-> who builds it, 0 if nobody
          stk,     \* goroutine |-> parsers called and not yet run
          nb       \* parser |-> factory calls made (history)
lvars == <<built, by, stk, nb>>

LInit == /\ built = [n \in Parsers |-> "no"] /\ by = [n \in Parsers |-> 0]
         /\ stk = [g \in Procs |-> <<>>] /\ nb = [n \in Parsers |-> 0]

Want(g) == IF stk[g] = <<>> THEN 0 ELSE stk[g][Len(stk[g])]

CallIt(n, g) == /\ stk' = [stk EXCEPT ![g] = Append(@, n)]
                /\ UNCHANGED <<built, by, nb>>
(* who builds is not visible outside: one of those that called and wait *)
Begin(n, g) == /\ built[n] = "no" /\ Want(g) = n
               /\ built' = [built EXCEPT ![n] = "building"] /\ by' = [by EXCEPT ![n] = g]
               /\ nb' = [nb EXCEPT ![n] = @ + 1]
               /\ UNCHANGED stk
End(n) == /\ built[n] = "building"
          /\ built' = [built EXCEPT ![n] = "yes"]
          /\ UNCHANGED <<by, stk, nb>>
Run(n, g) == /\ built[n] = "yes" /\ Want(g) = n
             /\ stk' = [stk EXCEPT ![g] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<built, by, nb>>

OnceOnly == \A n \in Parsers : nb[n] <= 1
NotBeforeUse == \A n \in Parsers : nb[n] = 0 => built[n] = "no"
=============================================================================
