----------------------------- MODULE ProductionTrace -----------------------------
(***************************************************************************)
(* Recorded runs of production rules: which rule was applied to which ASTs,   *)
(* what the acceptance pattern was asked about, the result.                 *)
(***************************************************************************)
EXTENDS Production, TLC, Json, IOUtils
Recorded == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, pc, list, hit, i, good
vars == <<ses, pc, list, hit, i, good>>

S == Recorded[ses]
Evs == S.ev
Cut == S.end = "cut" /\ i = Len(Evs)

Init == /\ ses \in 1..Len(Recorded)
        /\ pc = "round" /\ list = Recorded[ses].list /\ hit = FALSE /\ i = 0 /\ good = TRUE

Shows(e) == /\ i' = i + 1 /\ good' = (i < Len(Evs) /\ Evs[i + 1] = e)

Round ==
  /\ pc = "round" /\ ~Cut
  /\ LET f == Applicable(S.g, S.levels, list) IN
     IF f.k = "E" THEN /\ Shows(<<"r", "E", IF f.m = "" THEN "lib" ELSE f.m, <<>>>>) /\ pc' = "end" /\ UNCHANGED <<list, hit>>
     ELSE IF f.k = "U" THEN /\ hit' = FALSE /\ pc' = "check" /\ UNCHANGED <<list, i, good>>
     ELSE LET o == Outcome(S.levels, list, f) IN
          /\ Shows(<<"t", f.l, f.r, f.pos, f.c.a>>)
          /\ hit' = TRUE
          /\ IF o.ok THEN list' = o.li /\ pc' = "check" ELSE pc' = "fail" /\ list' = <<StrAst(o.m, <<>>, 0, 0)>>
  /\ UNCHANGED ses
Failed ==
  /\ pc = "fail" /\ ~Cut /\ Shows(<<"r", "E", Cls(list[1]), <<>>>>) /\ pc' = "end" /\ UNCHANGED <<ses, list, hit>>
Check ==
  /\ pc = "check" /\ ~Cut
  /\ Shows(<<"k", 0, list>>)
  /\ pc' = IF Accepted(S.g, S.chk, list) THEN "accept" ELSE IF hit THEN "round" ELSE "none"
  /\ UNCHANGED <<ses, list, hit>>
Result ==
  /\ pc \in {"accept", "none"} /\ ~Cut
  /\ Shows(IF pc = "accept" THEN <<"r", "M", "", list>> ELSE <<"r", "E", "lib", <<>>>>)
  /\ pc' = "end" /\ UNCHANGED <<ses, list, hit>>
(* the list handed in is as it was *)
Kept ==
  /\ pc = "end" /\ ~Cut /\ Shows(<<"o", S.list>>) /\ pc' = "done" /\ UNCHANGED <<ses, list, hit>>

Next == Round \/ Failed \/ Check \/ Result \/ Kept
Spec == Init /\ [][Next]_vars

Conforms == good /\ S.end \in {"done", "cut"} /\ (pc = "done" => i = Len(Evs))
Alias == [session |-> S.id, consumed |-> i, pc |-> pc, list |-> list,
          recorded |-> IF i >= 1 /\ i <= Len(Evs) THEN Evs[i] ELSE <<>>]
=============================================================================
