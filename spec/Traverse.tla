-------------------------------- MODULE Traverse --------------------------------
(***************************************************************************)
(* Depth-first traversal of an AST with handlers.                            *)
(* A node is the tuple of Asts; its opcode is its identity.                  *)
(* The handlers are the environment: There(ses, id, v) and Back(ses, id, v) are the     *)
(* sets of things a handler may do at the v-th visit of node id:             *)
(*   There: [md |-> "none"/"lazy"/"last", rw |-> rewrite, er |-> error or ""] *)
(*   Back:  [op |-> "nop"/"break"/"continue", pc |-> jump, rw, th |-> thrown  *)
(*           or "", er |-> error or ""]                                      *)
(* A rewrite is <<"no">>, <<"cls", suffix>>, <<"at", position, length,        *)
(* address>>, <<"op", opcode>> or <<"val", type, kind, value, children>>.     *)
(***************************************************************************)
EXTENDS Asts
CONSTANTS There(_, _, _), Back(_, _, _)

VARIABLES ses,  \* session, of no importance here
          pc,   \* "there", "next", "back", "return", "unwind", "final", "done"
          cur,  \* node handed on: to be entered, or completed
          st,   \* frames of the nodes that are entered, last = innermost
          res,  \* what the completed node asks its list to do: [op, pc]
          fail, \* what stops everything: [th, er]
          vis,  \* id -> visits so far
          ev    \* event shown by the last step
tvars == <<ses, pc, cur, st, res, fail, vis, ev>>

Rewritten(a, rw) == CASE rw[1] = "no" -> a
                      [] rw[1] = "cls" -> [a EXCEPT ![1] = @ \o rw[2]]
                      [] rw[1] = "at"  -> [a EXCEPT ![6] = rw[2], ![7] = rw[3], ![8] = rw[4] * 100000 + (Op(a) % 100000)]
                      [] rw[1] = "op"  -> [a EXCEPT ![8] = rw[2] + 100000 * (Op(a) \div 100000)]  \* only when the node is completed
                      [] rw[1] = "val" -> [a EXCEPT ![2] = rw[2], ![3] = rw[3], ![4] = rw[4], ![5] = rw[5]]
IsParent(a) == Typ(a) \in {"AstCons", "ListOfAst"}
Nothing == MkAst("", "Nil", "nil", <<>>, <<>>, 0, 0, 0)
Id(a) == Op(a) % 100000
Nop == [op |-> "nop", pc |-> 0]
NoFail == [th |-> "", er |-> ""]

Init0(root) ==
  /\ pc = "there" /\ cur = root /\ st = <<>> /\ res = Nop /\ fail = NoFail /\ vis = <<>> /\ ev = <<>>

Visits(id) == IF id \in DOMAIN vis THEN vis[id] ELSE 0
WithVisit(id) == [x \in DOMAIN vis \union {id} |-> IF x = id THEN Visits(id) + 1 ELSE vis[x]]
Top == Last(st)
SetTop(f) == Front(st) \o <<f>>

(* the outbound handler is called before the children *)
Enter ==
  /\ pc = "there"
  /\ vis' = WithVisit(Id(cur))
  /\ ev' = <<"th", cur>>
  /\ \E t \in There(ses, Id(cur), Visits(Id(cur)) + 1) :
       IF t.er # ""
       THEN /\ fail' = [th |-> "", er |-> t.er] /\ pc' = "unwind" /\ UNCHANGED <<st, cur>>
       ELSE LET n == Rewritten(cur, t.rw) IN
            /\ st' = Append(st, [n |-> n, i |-> 1, out |-> <<>>,
                                 kids |-> IF t.md # "lazy" /\ IsParent(n) THEN Kids(n) ELSE <<>>,
                                 whole |-> t.md = "lazy" \/ ~IsParent(n),
                                 last |-> t.md = "last" /\ Typ(n) = "ListOfAst"])
            /\ pc' = "next" /\ UNCHANGED <<fail, cur>>
  /\ UNCHANGED res

NextChild ==
  /\ pc = "next"
  /\ LET f == Top IN
     IF f.i <= Len(f.kids)
     THEN cur' = f.kids[f.i] /\ pc' = "there"
     ELSE /\ cur' = IF f.whole THEN f.n ELSE [f.n EXCEPT ![5] = f.out]
          /\ pc' = "back"
  /\ ev' = <<>> /\ UNCHANGED <<st, res, fail, vis>>

(* the return handler is called after all children *)
Leave ==
  /\ pc = "back"
  /\ ev' = <<"bk", cur>>
  /\ st' = Front(st)
  /\ \E b \in Back(ses, Id(Top.n), Visits(Id(Top.n))) :
       /\ cur' = Rewritten(cur, b.rw)
       /\ IF b.th # "" \/ b.er # ""
          THEN /\ fail' = [th |-> b.th, er |-> b.er] /\ pc' = "unwind" /\ UNCHANGED res
          ELSE /\ res' = [op |-> b.op, pc |-> b.pc] /\ pc' = "return" /\ UNCHANGED fail
  /\ UNCHANGED vis

(* the enclosing node takes the completed node *)
Take ==
  /\ pc = "return"
  /\ IF st = <<>> THEN pc' = "final" /\ UNCHANGED st
     ELSE LET f == Top n == Len(f.kids)
              at == CASE res.op = "nop" -> f.i [] res.op = "break" -> n [] res.op = "continue" -> 0
          IN /\ pc' = "next"
             /\ st' = SetTop(IF f.last
                  THEN [f EXCEPT !.i = at + res.pc + 1,
                                 !.out = IF res.op = "nop" THEN <<cur>>
                                         ELSE IF @ = <<>> THEN <<Nothing>> ELSE @]
                  ELSE [f EXCEPT !.i = @ + 1, !.out = Append(@, cur)])
  /\ ev' = <<>> /\ UNCHANGED <<cur, res, fail, vis>>

(* an error or a thrown value: every enclosing node hears of it, innermost first *)
Unwind ==
  /\ pc = "unwind"
  /\ IF st = <<>> THEN pc' = "final" /\ ev' = <<>> /\ UNCHANGED <<st, cur>>
     ELSE /\ ev' = <<"er", Id(Top.n), Cls(Top.n), Id(cur), fail.th, fail.er>>
          /\ cur' = Top.n /\ st' = Front(st) /\ UNCHANGED pc
  /\ UNCHANGED <<res, fail, vis>>

Final ==
  /\ pc = "final" /\ pc' = "done"
  /\ ev' = IF fail = NoFail THEN <<"r", cur, res.op, res.pc>> ELSE <<"f", fail.th, fail.er>>
  /\ UNCHANGED <<cur, st, res, fail, vis>>

Step == (Enter \/ NextChild \/ Leave \/ Take \/ Unwind \/ Final) /\ UNCHANGED ses
=============================================================================
