------------------------------ MODULE TraverseTrace ------------------------------
(* Recorded traversals: every handler call, the outcome, the original tree afterwards. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Recorded == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, pc, cur, st, res, fail, vis, ev, i, good

(* a handler's decisions: a list per node, by visit; afterwards the default *)
At(tab, id, v, default) ==
  LET ks == { k \in 1..Len(tab) : tab[k].id = id /\ tab[k].v = v }
  IN IF ks = {} THEN {default} ELSE { tab[CHOOSE k \in ks : TRUE].d }
ThereT(s, id, v) == At(Recorded[s].there, id, v, [md |-> "none", rw |-> <<"no">>, er |-> ""])
BackT(s, id, v) == At(Recorded[s].back, id, v, [op |-> "nop", pc |-> 0, rw |-> <<"no">>, th |-> "", er |-> ""])
T == INSTANCE Traverse WITH There <- ThereT, Back <- BackT
vars == <<ses, pc, cur, st, res, fail, vis, ev, i, good>>

S == Recorded[ses]
Evs == S.ev
Cut == S.end = "cut" /\ i = Len(Evs)
Init == ses \in 1..Len(Recorded) /\ T!Init0(Recorded[ses].tree) /\ i = 0 /\ good = TRUE
Shown(e) == IF e = <<>> THEN UNCHANGED <<i, good>>
            ELSE i' = i + 1 /\ good' = (i < Len(Evs) /\ Evs[i + 1] = e)
Next == \/ ~Cut /\ T!Step /\ Shown(ev')
        \/ /\ ~Cut /\ pc = "done" /\ pc' = "over" /\ ev' = <<"o", S.tree>> /\ Shown(ev')
           /\ UNCHANGED <<ses, cur, st, res, fail, vis>>
Spec == Init /\ [][Next]_vars
Conforms == good /\ S.end \in {"done", "cut"} /\ (pc = "over" => i = Len(Evs))
Alias == [session |-> S.id, consumed |-> i, pc |-> pc, shown |-> ev,
          recorded |-> IF i >= 1 /\ i <= Len(Evs) THEN Evs[i] ELSE <<>>]
=============================================================================
