------------------------------ MODULE ProductionMC ------------------------------
(* Operator expressions: prefix "~", right associative "^", left associative "*" and "+".
   Reducing by production rules gives the tree of precedence climbing, and fails exactly
   when there is none. *)
EXTENDS Production, TLC
CONSTANT MaxLen
VARIABLES list, pc, text

Tok(c) == MkAst(c, "Int", "int", <<48>>, <<>>, 0, 1, 0)
A(cs) == [op |-> "acls", cns |-> cs, lg |-> FALSE]
F(ch) == [op |-> "flat", ch |-> ch, lg |-> FALSE]
(* 1 operand, 2..5 operators, 6.. rules *)
G == << A(<<"n", "e">>), A(<<"~">>), A(<<"^">>), A(<<"*">>), A(<<"+">>),
        F(<<2, 1>>), F(<<1, 3, 1>>), F(<<1, 4, 1>>), F(<<1, 5, 1>>),
        [op |-> "oend", lg |-> FALSE], F(<<1, 10>>) >>
Rule(n) == [n |-> n, tr |-> << [t |-> "reduce", cn |-> "e"] >>]
Levels == << [rtol |-> TRUE, rules |-> <<Rule(6)>>], [rtol |-> TRUE, rules |-> <<Rule(7)>>],
             [rtol |-> FALSE, rules |-> <<Rule(8)>>], [rtol |-> FALSE, rules |-> <<Rule(9)>>] >>
Chk == 11

Node(kids) == MkAst("e", "ListOfAst", "list", <<>>, kids, 0, 0, 0)
(* precedence climbing: [e |-> next offset, 0 if it fails; t |-> tree] *)
No1 == [e |-> 0, t |-> <<>>]
Sym(ts, i) == IF i <= Len(ts) THEN Cls(ts[i]) ELSE "end"
RECURSIVE Unary(_, _), Power(_, _), Left(_, _, _, _), Operand(_, _, _)
Unary(ts, i) == IF Sym(ts, i) = "n" THEN [e |-> i + 1, t |-> ts[i]]
                ELSE IF Sym(ts, i) = "~"
                THEN LET r == Unary(ts, i + 1) IN
                     IF r.e = 0 THEN No1 ELSE [e |-> r.e, t |-> Node(<<ts[i], r.t>>)]
                ELSE No1
Power(ts, i) == LET l == Unary(ts, i) IN
                IF l.e = 0 \/ Sym(ts, l.e) # "^" THEN l
                ELSE LET r == Power(ts, l.e + 1) IN
                     IF r.e = 0 THEN No1 ELSE [e |-> r.e, t |-> Node(<<l.t, ts[l.e], r.t>>)]
Operand(ts, i, lv) == IF lv = 1 THEN Power(ts, i) ELSE Left(ts, 1, Operand(ts, i, 1), "*")
Left(ts, lv, l, op) ==
  IF l.e = 0 \/ Sym(ts, l.e) # op THEN l
  ELSE LET r == Operand(ts, l.e + 1, lv) IN
       IF r.e = 0 THEN No1 ELSE Left(ts, lv, [e |-> r.e, t |-> Node(<<l.t, ts[l.e], r.t>>)], op)
Climb(ts) == LET r == Left(ts, 2, Operand(ts, 1, 2), "+") IN
             IF r.e = Len(ts) + 1 THEN r ELSE No1

Texts == UNION { [1..n -> {"n", "~", "^", "*", "+"}] : n \in 0..MaxLen }
Init == \E w \in Texts : /\ text = [k \in 1..Len(w) |-> [Tok(w[k]) EXCEPT ![6] = k]]
                         /\ list = text /\ pc = "round"
Next == /\ pc = "round" /\ UNCHANGED text
        /\ LET f == Applicable(G, Levels, list)
               o == Outcome(Levels, list, f) IN
           IF f.k = "U" THEN /\ UNCHANGED list
                             /\ pc' = IF Accepted(G, Chk, list) THEN "accept" ELSE "error"
           ELSE /\ list' = o.li
                /\ pc' = IF Accepted(G, Chk, o.li) THEN "accept" ELSE "round"
Spec == Init /\ [][Next]_<<list, pc, text>> /\ WF_<<list, pc, text>>(Next)
Trees == /\ pc = "accept" => (Climb(text).e > 0 /\ list = <<Climb(text).t>>)
         /\ pc = "error" => Climb(text).e = 0
Ends == <>(pc \in {"accept", "error"})
=============================================================================
