------------------------------- MODULE TraverseMC -------------------------------
(* All handler decisions on one small tree. *)
EXTENDS Traverse, TLC
CONSTANT MaxVisits
VARIABLES plain, open, normal
vars == <<ses, pc, cur, st, res, fail, vis, ev, plain, open, normal>>

Leaf(id) == MkAst("x", "Int", "int", <<48>>, <<>>, 0, 0, id)
List(id, kids) == MkAst("x", "ListOfAst", "list", <<>>, kids, 0, 0, id)
Cons(id, kids) == MkAst("x", "AstCons", "cons", <<>>, kids, 0, 0, id)
Tree == List(1, << Leaf(2), Cons(3, << Leaf(4), List(5, <<>>) >>), Leaf(6) >>)
Parent == <<0, 1, 1, 3, 3, 1>>

ThereAny(s, id, v) ==
  { [md |-> m, rw |-> <<"cls", "t">>, er |-> ""] : m \in {"none", "lazy", "last"} }
  \union {[md |-> "none", rw |-> <<"no">>, er |-> "E"]}
BackAny(s, id, v) ==
  LET b(o, p, t, e) == [op |-> o, pc |-> p, rw |-> <<"cls", "b">>, th |-> t, er |-> e] IN
  {b("nop", 0, "", ""), b("nop", 0, "T", "")}
  \union (IF v > MaxVisits THEN {} ELSE
          {b("nop", 1, "", ""), b("break", 0, "", ""), b("continue", 0, "", ""), b("continue", 1, "", ""),
           b("break", -1, "", "")} \union (IF id \in {3, 6} THEN {b("nop", -2, "", "")} ELSE {}))

Init == ses = 1 /\ Init0(Tree) /\ plain = TRUE /\ open = <<>> /\ normal = <<>>
Plainly == /\ pc = "there" /\ pc' = "next" => ~Last(st').last /\ (Last(st').whole => ~IsParent(cur))
           /\ pc' # "unwind"
Next == /\ Step
        /\ plain' = (plain /\ Plainly)
        \* nodes begun and not ended; normally completed items per open node
        /\ open' = CASE ev' = <<>> -> open
                     [] ev'[1] = "th" -> IF pc' = "unwind" THEN open ELSE Append(open, Id(ev'[2]))
                     [] ev'[1] = "bk" -> Front(open)
                     [] ev'[1] = "er" -> Front(open)
                     [] OTHER -> open
        /\ normal' = CASE ev' # <<>> /\ ev'[1] = "th" /\ pc' = "next" -> Append(normal, <<>>)
                       [] pc = "return" /\ st # <<>> /\ res.op = "nop" ->
                            Front(normal) \o << Append(Last(normal), cur) >>
                       [] (pc = "back" \/ pc = "unwind") /\ st # st' -> Front(normal)
                       [] OTHER -> normal
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the open nodes are those on the path to the root *)
Nested == /\ open = [k \in 1..Len(st) |-> Id(st[k].n)]
          /\ \A k \in 2..Len(st) : Parent[open[k]] = open[k - 1]
          /\ st # <<>> => open[1] = 1
(* children of lazily marked nodes are not entered *)
LazyKept == \A k \in 1..(Len(st) - 1) : ~st[k].whole
(* a list in last-item mode holds its last normally completed item only *)
LastOnly == \A k \in 1..Len(st) :
  st[k].last => /\ Len(st[k].out) <= 1
                /\ normal[k] # <<>> => st[k].out = << Last(normal[k]) >>
(* without modes, jumps count for nothing: every node once, same shape *)
RECURSIVE Touched(_)
Touched(a) == [a EXCEPT ![1] = @ \o "tb", ![5] = [k \in 1..Len(a[5]) |-> Touched(a[5][k])]]
Shape == (pc = "done" /\ plain) => cur = Touched(Tree)
(* once something failed no handler but the error handlers is called *)
Stops == (fail # NoFail /\ ev # <<>> /\ pc # "unwind") => ev[1] \in {"er", "f"} \/ pc \in {"final", "done"}
AllTold == (pc = "done" /\ fail # NoFail) => open = <<>>
Ends == <>(pc = "done")
=============================================================================
