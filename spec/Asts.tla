-------------------------------- MODULE Asts --------------------------------
(***************************************************************************)
(* Abstract syntax tree nodes and the transformers on lists of them.        *)
(* A node is the tuple                                                      *)
(*   <<class, type, value kind, value, children, position, length, opcode>> *)
(* value: strings as bytes, numbers as their decimal digits in ASCII, slice *)
(* elements as integers; children: nodes held by a list or a pair.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Text

MkAst(cn, ty, vt, vb, ch, p, l, op) == <<cn, ty, vt, vb, ch, p, l, op>>
StrAst(cn, bytes, p, l) == <<cn, "String", "str", bytes, <<>>, p, l, 0>>

Cls(a) == a[1]   Typ(a) == a[2]   VKind(a) == a[3]   Val(a) == a[4]
Kids(a) == a[5]  Pos(a) == a[6]   Ln(a) == a[7]      Op(a) == a[8]

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
DropN(q, n) == SubSeq(q, n + 1, Len(q))
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]

(* characters cut by the trimming transformers, and trimming of a byte text *)
RECURSIVE TrimL(_)
TrimL(b) == IF b = <<>> THEN b
            ELSE LET d == DecodeRune(b, 0) IN
                 IF InRanges(d[1], WSRanges) /\ ~(d[1] = RuneError /\ d[2] = 1)
                 THEN TrimL(SubSeq(b, d[2] + 1, Len(b))) ELSE b
RECURSIVE TrimR(_)
TrimR(b) ==
  IF b = <<>> THEN b
  ELSE LET ks == { k \in 1..2 : k <= Len(b) /\ ~Cont(b[Len(b)-k+1])
                               /\ DecodeRune(b, Len(b)-k)[2] = k
                               /\ InRanges(DecodeRune(b, Len(b)-k)[1], WSRanges) }
       IN IF ks = {} THEN b
          ELSE TrimR(SubSeq(b, 1, Len(b) - (CHOOSE k \in ks : TRUE)))

RECURSIVE JoinVals(_)
JoinVals(li) == IF li = <<>> THEN <<>> ELSE Val(Head(li)) \o JoinVals(Tail(li))
(* list of any length without deep recursion: halves *)
RECURSIVE JoinRange(_, _, _)
JoinRange(li, a, b) ==
  IF a > b THEN <<>> ELSE IF a = b THEN Val(li[a])
  ELSE LET m == (a + b) \div 2 IN JoinRange(li, a, m) \o JoinRange(li, m + 1, b)

ConcatOk(li) == \A k \in 1..Len(li) : Typ(li[k]) = "String"
ConcatAst(li) ==
  IF li = <<>> THEN StrAst("", <<>>, 0, 0)
  ELSE StrAst(Cls(li[1]), JoinRange(li, 1, Len(li)), Pos(li[1]), Ln(li[1]))

Ok(li) == [ok |-> TRUE, li |-> li, m |-> ""]
Bad(m) == [ok |-> FALSE, li |-> <<>>, m |-> m]

(* opcode and address of a node share a number *)
WithOp(op, n) == (op \div 100000) * 100000 + n
SetAt1(li, f(_)) == IF li = <<>> THEN li ELSE <<f(li[1])>> \o Tail(li)

RollList(li, n) ==
  IF li = <<>> THEN li
  ELSE LET m == ((n % Len(li)) + Len(li)) % Len(li)
       IN SubSeq(li, m + 1, Len(li)) \o SubSeq(li, 1, m)

WithString(li, f(_)) ==
  IF ~ConcatOk(li) THEN Bad("lib")
  ELSE LET a == ConcatAst(li) IN Ok(<<[a EXCEPT ![4] = f(a[4])]>>)
Same(b) == b

(* an element of a slice of values: integers, and one for "no value" *)
Elem(a) == IF VKind(a) = "nil" THEN -999 ELSE Val(a)[1]
Taken(a) == IF VKind(a) = "ast" THEN Kids(a)[1] ELSE a

(* The meaning of transformer t (a record with field "t") on the list li. *)
Transform(t, li) ==
  CASE t.t = "id"     -> Ok(li)
    [] t.t = "dup"    -> Ok(IF Len(li) > 24 THEN li ELSE li \o li)
    [] t.t = "rev"    -> Ok(Rev(li))
    [] t.t = "mark"   -> Ok(Append(li, StrAst(t.cn, <<>>, 0, 0)))
    [] t.t = "err"    -> Bad(t.m)
    [] t.t = "terr"   -> Bad(t.m)
    [] t.t = "erase"  -> Ok(<<>>)
    [] t.t = "group"  -> Ok(<< MkAst("Group", "ListOfAst", "list", <<>>, li, 0, 0, 0) >>)
    [] t.t = "pop"    -> Ok(IF li = <<>> THEN li ELSE Front(li))
    [] t.t = "xchg"   -> Ok(IF Len(li) < 2 THEN li
                            ELSE SubSeq(li, 1, Len(li) - 2) \o << li[Len(li)], li[Len(li)-1] >>)
    [] t.t = "roll"   -> Ok(RollList(li, t.n))
    [] t.t = "prepend" -> Ok(<< IF li = <<>> THEN t.ast
                               ELSE [t.ast EXCEPT ![6] = Pos(li[1]), ![7] = Ln(li[1])] >> \o li)
    [] t.t = "push"   -> Ok(Append(li, IF li = <<>> THEN t.ast
                               ELSE [t.ast EXCEPT ![6] = Pos(Last(li)), ![7] = Ln(Last(li))]))
    [] t.t = "setop"  -> Ok(SetAt1(li, LAMBDA a : [a EXCEPT ![8] = WithOp(@, t.n)]))
    [] t.t = "setcls" -> Ok(SetAt1(li, LAMBDA a : [a EXCEPT ![1] = t.cn]))
    [] t.t = "setopcls" -> Ok(SetAt1(li, LAMBDA a : [a EXCEPT ![1] = t.cn, ![8] = WithOp(@, t.n)]))
    [] t.t = "setval" -> Ok(SetAt1(li, LAMBDA a : [a EXCEPT ![2] = t.ast[2], ![3] = t.ast[3],
                                                            ![4] = t.ast[4], ![5] = t.ast[5]]))
    [] t.t = "concat" -> WithString(li, Same)
    [] t.t = "trim"   -> WithString(li, LAMBDA b : TrimR(TrimL(b)))
    [] t.t = "trims"  -> WithString(li, TrimL)
    [] t.t = "trime"  -> WithString(li, TrimR)
    (* on ASTs taken from a list of ASTs *)
    [] t.t = "reduce" -> Ok(<< MkAst(t.cn, "ListOfAst", "list", <<>>,
                                     [k \in 1..Len(li) |-> Taken(li[k])], 0, 0, 0) >>)
    [] t.t = "pick"   -> Ok(IF Len(li) >= t.n THEN << Taken(li[t.n]) >> ELSE <<>>)
    [] t.t = "toslice" ->
         Ok(IF li = <<>> THEN << MkAst("", "ListOfAny", "slice", <<>>, <<>>, 0, 0, 0) >>
            ELSE << MkAst(Cls(li[1]), "ListOfAny", "slice",
                          [k \in 1..Len(li) |-> Elem(li[k])], <<>>,
                          Pos(li[1]), Ln(li[1]), 0) >>)

(* Predicates of the stack-matching parser on the whole list. *)
(* Values are equal as Go compares them: minus zero is zero, and no NaN equals anything. *)
Zeroed(v) == IF v = <<45, 48>> THEN <<48>> ELSE v
ValEq(kind, v, w) == IF kind = "float" THEN v # <<78, 97, 78>> /\ Zeroed(v) = Zeroed(w) ELSE v = w
TopHas(kind, vs, li) ==
  li # <<>> /\ VKind(Last(li)) = kind /\ \E k \in 1..Len(vs) : ValEq(kind, vs[k], Val(Last(li)))
Pred(pr, li) ==
  CASE pr.k = "any"   -> TRUE
    [] pr.k = "never" -> FALSE
    [] pr.k = "min"   -> Len(li) >= pr.n
    [] pr.k = "cls"   -> li # <<>> /\ Cls(Last(li)) = pr.cn
    [] pr.k \in {"rune", "int", "uint", "float", "bool", "str"} -> TopHas(pr.k, pr.vs, li)
    [] pr.k = "is"    -> li # <<>> /\ \E k \in 1..Len(pr.vs) :
                            /\ pr.vs[k][1] = VKind(Last(li))
                            /\ ValEq(pr.vs[k][1], pr.vs[k][2], Val(Last(li)))
                            /\ pr.vs[k][3] = Kids(Last(li))
=============================================================================
