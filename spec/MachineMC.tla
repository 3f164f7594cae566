------------------------------- MODULE MachineMC -------------------------------
(***************************************************************************)
(* The engine explored exhaustively: all grammars of up to Size nodes over    *)
(* the building blocks of a theme, all texts over {a, b} up to MaxLen.        *)
(* Every return of every node is compared with the denotation (Peg).          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Theme, Size, MaxLen

VARIABLES ses, pc, nd, st, cx, rs, bu, run, ev
Id(s) == s
M == INSTANCE Machine WITH Sess <- Id
D == INSTANCE Peg
A == INSTANCE Asts
vars == <<ses, pc, nd, st, cx, rs, bu, run, ev>>

A_ == 97
B_ == 98
Zed == A!StrAst("z", <<122>>, 0, 0)
One(cn) == A!StrAst(cn, <<>>, 0, 0)
Actn(r, adv, as) == [r |-> r, m |-> IF r = "E" THEN "E:a" ELSE "", adv |-> adv, as |-> as, u |-> 0]

Set == 77  \* a tag set by a callback

Tok == { [op |-> "seq", s |-> <<A_>>], [op |-> "seq", s |-> <<B_>>] }
Leaves0 ==
  CASE Theme = "choice" -> Tok \union { [op |-> "any"], [op |-> "zero", as |-> <<Zed>>] }
    [] Theme = "rep"    -> Tok \union { [op |-> "any"] }
    [] Theme = "back"   -> Tok \union { [op |-> "zero", as |-> <<Zed>>] }
    [] Theme = "err"    -> Tok \union { [op |-> "error", m |-> "E:a"],
                             [op |-> "hl", on |-> A_, t |-> Actn("M", 1, <<>>), e |-> Actn("E", 0, <<>>)] }
    [] Theme = "look"   -> Tok \union { [op |-> "any"], [op |-> "start"], [op |-> "end"] }
    [] Theme = "trans"  -> Tok \union { [op |-> "zero", as |-> <<Zed, Zed>>] }
    [] Theme = "match"  -> Tok \union { [op |-> "any"] }
    [] Theme = "custom" -> Tok \union { [op |-> "zero", as |-> <<Zed>>] }
    [] Theme = "leaf"   -> { [op |-> "seq", s |-> <<195, 169>>], [op |-> "seq", s |-> <<169>>], [op |-> "seq", s |-> <<>>],
                             [op |-> "seqi", s |-> <<195, 137>>], [op |-> "seqi", s |-> <<65, 32>>],
                             [op |-> "range", rs |-> << <<97, 233>> >>], [op |-> "range", rs |-> << <<32, 32>>, <<65533, 65533>> >>],
                             [op |-> "range", rs |-> <<>>], [op |-> "rangeN", rs |-> << <<97, 233>> >>],
                             [op |-> "rangeN", rs |-> <<>>],
                             [op |-> "class", ss |-> << <<97>>, <<97, 97>> >>], [op |-> "class", ss |-> << <<195, 169, 97>>, <<195, 169>> >>],
                             [op |-> "classN", ss |-> << <<97, 97>>, <<195>> >>], [op |-> "classN", ss |-> << <<32>> >>],
                             [op |-> "class", ss |-> <<>>], [op |-> "classN", ss |-> <<>>],
                             [op |-> "classFn", rs |-> << <<98, 65533>> >>], [op |-> "any"], [op |-> "end"], [op |-> "start"] }
                           \union { [op |-> o] : o \in {"ws", "wsnl", "lbk", "alpha", "num", "alnum", "bin", "oct", "hex"} }
    [] Theme = "span"   -> Tok \union { [op |-> "any"], [op |-> "zero", as |-> <<Zed>>],
                             [op |-> "class", ss |-> << <<A_, B_>>, <<B_>> >>], [op |-> "seqi", s |-> <<66>>] }
    [] Theme = "obj"    -> { [op |-> "oany"], [op |-> "oend"], [op |-> "oclass", vs |-> <<A_>>],
                             [op |-> "oclassN", vs |-> <<A_, 3>>], [op |-> "oclassN", vs |-> <<>>], [op |-> "oclass", vs |-> <<>>],
                             [op |-> "oseq", vs |-> <<A_, B_>>], [op |-> "oseq", vs |-> <<>>],
                             [op |-> "ofn", pr |-> [k |-> "ge", n |-> B_]], [op |-> "ofn", pr |-> [k |-> "mod", n |-> 1, d |-> 2]] }
    [] Theme = "lazy"   -> Tok \union { [op |-> "ind", bl |-> TRUE] }
    [] Theme = "reuse"  -> Tok \union { [op |-> "error", m |-> "E:a"], [op |-> "ind", bl |-> TRUE] }
    [] Theme = "tags"   -> Tok \union { [op |-> "hl", on |-> A_, t |-> [Actn("M", 1, <<>>) EXCEPT !.u = Set], e |-> Actn("U", 0, <<>>)] }
    [] Theme = "word"   -> { [op |-> "wb"], [op |-> "any"], [op |-> "seq", s |-> <<A_>>], [op |-> "seq", s |-> <<195, 169>>] }

T(n) == [t |-> n, lg |-> TRUE]
Tmark(c) == [t |-> "mark", lg |-> TRUE, cn |-> c]
Terr == [t |-> "err", lg |-> TRUE, m |-> "E:t"]
Mcase(pr, tr) == [pr |-> pr, tr |-> tr]
Fn(rounds, rest, fin) == [k |-> "fn", rounds |-> rounds, rest |-> rest, fin |-> fin]
Cust(mn, mx, ng, ex, rw, fn, tr) == [op |-> "custom", mn |-> mn, mx |-> mx, ng |-> ng, ex |-> ex,
                                      rw |-> rw, fn |-> fn, tr |-> tr]
Okay == Actn("M", 0, <<>>)

(* parsers with any number of sub-parsers (used with one and with two) *)
Multi ==
  CASE Theme = "choice" -> { [op |-> "flat"], [op |-> "first"], [op |-> "group"] }
    [] Theme = "rep"    -> { [op |-> "flat"], [op |-> "first"] }
                           \union { [op |-> "rep", mn |-> x[1], mx |-> x[2]] : x \in
                                    { <<0,2>>, <<2,2>>, <<1,3>>, <<2,1>>, <<-1,1>>, <<0,0>> } }
    [] Theme = "back"   -> { [op |-> "flat"], [op |-> "first"], [op |-> "opt"],
                             [op |-> "rep", mn |-> 0, mx |-> 2] }
    [] Theme = "err"    -> { [op |-> "flat"], [op |-> "first"], [op |-> "opt"], [op |-> "lan"] }
    [] Theme = "look"   -> { [op |-> "flat"], [op |-> "first"], [op |-> "la"], [op |-> "lan"] }
    [] Theme = "trans"  -> { [op |-> "flat"], [op |-> "group"], [op |-> "opt"] }
    [] Theme = "match"  -> { [op |-> "flat"], [op |-> "first"] }
    [] Theme \in {"lazy", "leaf", "reuse", "word"} -> { [op |-> "flat"], [op |-> "first"] }
    [] Theme = "span"   -> { [op |-> "flat"], [op |-> "first"], [op |-> "group"] }
    [] Theme = "obj"    -> { [op |-> "flat"], [op |-> "first"], [op |-> "rep", mn |-> 1, mx |-> 2] }
    [] Theme = "tags"   -> { [op |-> "flat"], [op |-> "first"],
                             Cust(0, 2, FALSE, FALSE, FALSE, Fn(<<Okay>>, Actn("U", 0, <<>>), Okay), <<Tmark("m1")>>) }
Customs == { Cust(b[1], b[2], ng, ex, rw, fn, tr) :
             b \in { <<0, 2>>, <<1, 1>>, <<2, 2>> }, ng \in {TRUE, FALSE}, ex \in {TRUE, FALSE},
             rw \in {TRUE, FALSE},
             fn \in { [k |-> "no"], Fn(<<Okay>>, Actn("U", 0, <<Zed>>), Okay),
                      Fn(<<>>, Okay, Actn("M", 0, <<One("fin")>>)),
                      Fn(<<>>, Okay, Actn("E", 0, <<>>)), Fn(<<Okay>>, Actn("E", 0, <<>>), Okay),
                      Fn(<<>>, Okay, Actn("U", 0, <<>>)) },
             tr \in { <<>>, <<Tmark("m1")>> } }
MultiNodes == IF Theme = "custom" THEN Customs ELSE Multi

(* parsers with one sub-parser *)
Single ==
  CASE Theme = "choice" -> { [op |-> "if"], [op |-> "ind", bl |-> TRUE] }
    [] Theme = "rep"    -> { [op |-> "star"], [op |-> "plus"] }
    [] Theme = "back"   -> { [op |-> "trans", tr |-> <<T("rev")>>], [op |-> "trans", tr |-> <<T("dup")>>],
                             [op |-> "la"] }
    [] Theme = "err"    -> { [op |-> "trans", tr |-> <<Terr>>], [op |-> "lb", mn |-> 0, mx |-> 1],
                             [op |-> "lbn", mn |-> 1, mx |-> 1], [op |-> "la"] }
    [] Theme = "look"   -> { [op |-> x[1], mn |-> x[2], mx |-> x[3]] : x \in
                             { <<"lb",1,1>>, <<"lb",0,2>>, <<"lbn",1,2>>, <<"lbn",2,1>> } }
    [] Theme = "trans"  -> { [op |-> "trans", tr |-> x] : x \in
                             { <<T("rev"), Tmark("m1")>>, <<Tmark("m1"), T("group")>>, <<T("dup")>>,
                               <<T("erase"), Tmark("m2")>>, <<T("xchg"), T("pop")>>, <<T("id"), Terr>> } }
    [] Theme = "match"  -> { [op |-> "opt"], [op |-> "trans", tr |-> <<T("rev")>>] }
    [] Theme = "custom" -> { }
    [] Theme = "leaf"   -> { [op |-> "opt"] }
    [] Theme = "word"   -> { [op |-> "la"], [op |-> "lan"], [op |-> "star"] }
    [] Theme = "span"   -> { [op |-> "star"], [op |-> "opt"], [op |-> "la"], [op |-> "lb", mn |-> 1, mx |-> 2] }
    [] Theme = "obj"    -> { [op |-> "star"], [op |-> "la"], [op |-> "lan"], [op |-> "lb", mn |-> 0, mx |-> 2],
                             [op |-> "trans", tr |-> <<T("toslice")>>], [op |-> "trans", tr |-> <<T("rev")>>] }
    [] Theme = "lazy"   -> { [op |-> "ind", bl |-> TRUE], [op |-> "if"], [op |-> "opt"], [op |-> "la"] }
    [] Theme = "reuse"  -> { [op |-> "ind", bl |-> TRUE], [op |-> "star"], [op |-> "trans", tr |-> <<T("dup")>>], [op |-> "lan"] }
    [] Theme = "tags"   -> { [op |-> "reent", to |-> 2], [op |-> "ind", bl |-> TRUE], [op |-> "la"], [op |-> "lb", mn |-> 0, mx |-> 1],
                             [op |-> "trans", tr |-> <<T("rev")>>], [op |-> "opt"] }

(* stack-matching parsers are leaves *)
MatchLeaves ==
  IF Theme # "match" THEN {}
  ELSE { [op |-> "match", n |-> n, cases |-> cs] : n \in 0..2, cs \in
         { <<>>, << Mcase([k |-> "min", n |-> 3], <<T("group")>>),
                    Mcase([k |-> "str", vs |-> <<<<A_>>>>], <<T("rev")>>) >>,
           << Mcase([k |-> "cls", cn |-> "Any"], <<T("pop"), Tmark("m1")>>),
              Mcase([k |-> "any"], <<T("dup")>>) >> } }

(* can match without consuming: not allowed as the body of an unlimited repetition *)
RECURSIVE Prog(_)
Prog(t) == CASE t.op = "any" -> TRUE
             [] t.op = "seq" -> t.s # <<>>
             [] t.op \in {"oany", "oclass", "oclassN", "ofn"} -> TRUE
             [] t.op = "ind" /\ t.kids = <<>> -> FALSE
             [] t.op = "class" -> \A k \in 1..Len(t.ss) : t.ss[k] # <<>>
             [] t.op \in {"flat", "group"} -> \E k \in 1..Len(t.kids) : Prog(t.kids[k])
             [] t.op = "first" -> \A k \in 1..Len(t.kids) : Prog(t.kids[k])
             [] t.op \in {"plus", "trans", "if", "ind"} -> Prog(t.kids[1])
             [] t.op = "rep" -> t.mn >= 1 /\ t.mx >= 1 /\ \E k \in 1..Len(t.kids) : Prog(t.kids[k])
             [] OTHER -> FALSE

With(x, kids) == [f \in DOMAIN x \union {"kids"} |-> IF f = "kids" THEN kids ELSE x[f]]
Atoms == { With(x, <<>>) : x \in Leaves0 \union MatchLeaves }

RECURSIVE Terms(_)
Terms(n) ==
  IF n = 1 THEN Atoms
  ELSE UNION {
    { With(x, <<k>>) : x \in Single \union MultiNodes, k \in Terms(n - 1) },
    UNION { { With(x, <<k1, k2>>) : x \in MultiNodes, k1 \in Terms(j), k2 \in Terms(n - 1 - j) }
            : j \in 1..(n - 2) } }
(* a recursive rule is entered again only behind something that was consumed *)
RECURSIVE Guarded(_, _)
Guarded(t, p) ==
  IF t.op = "ind" /\ t.kids = <<>> THEN p
  ELSE IF t.op \in {"flat", "group"}
  THEN \A k \in 1..Len(t.kids) : Guarded(t.kids[k], p \/ \E j \in 1..(k - 1) : Prog(t.kids[j]))
  ELSE IF t.op \in {"lb", "lbn"} THEN Guarded(t.kids[1], FALSE)
  ELSE \A k \in 1..Len(t.kids) : Guarded(t.kids[k], p)
RECURSIVE Sound(_)
RECURSIVE Plain(_)  \* its ASTs hold single elements
Plain(t) == /\ t.op \notin {"oseq", "trans"}
            /\ \A k \in 1..Len(t.kids) : Plain(t.kids[k])
Sound(t) == /\ (t.op = "trans" /\ t.tr[1].t = "toslice") => Plain(t.kids[1])
            /\ (t.op \in {"star", "plus"} => Prog(t.kids[1]))
            /\ \A k \in 1..Len(t.kids) : Sound(t.kids[k])

(* number the nodes of a tree, root first *)
RECURSIVE Nodes(_, _)
Lay(x, ch) == [f \in (DOMAIN x \ {"kids"}) \union {"ch", "lg"} |->
                 IF f = "ch" THEN ch ELSE IF f = "lg" THEN TRUE ELSE x[f]]
RECURSIVE Count(_)
Count(t) == 1 + (IF t.kids = <<>> THEN 0 ELSE Count(t.kids[1])
                 + (IF Len(t.kids) = 2 THEN Count(t.kids[2]) ELSE 0))
Nodes(t, at) ==
  IF t.kids = <<>> THEN << Lay(t, IF t.op = "ind" THEN <<1>> ELSE <<>>) >>  \* without a body of its own: the whole again
  ELSE IF Len(t.kids) = 1 THEN << Lay(t, <<at + 1>>) >> \o Nodes(t.kids[1], at + 1)
  ELSE LET b == at + 1 + Count(t.kids[1]) IN
       << Lay(t, <<at + 1, b>>) >> \o Nodes(t.kids[1], at + 1) \o Nodes(t.kids[2], b)

Chars == CASE Theme = "leaf" -> { <<97>>, <<195>>, <<169>>, <<32>> }
           [] Theme = "word" -> { <<A_>>, <<32>>, <<195, 169>> }
           [] OTHER -> { <<A_>>, <<B_>> }
Fold == IF Theme \in {"leaf", "span"} THEN << <<233, 201>>, <<201, 201>> >> ELSE <<>>
Kind == IF Theme = "obj" THEN "int" ELSE ""
Other == <<A_>>  \* what is parsed in between
RECURSIVE Exactly(_)
Exactly(n) == IF n = 0 THEN { <<>> } ELSE { w \o x : w \in Exactly(n - 1), x \in Chars }
Words(n) == UNION { Exactly(k) : k \in 0..n }
Below == << A!StrAst("c", <<A_>>, 9, 9), A!StrAst("d", <<B_>>, 9, 9) >>

TermsAll == { t \in UNION { Terms(n) : n \in 1..Size } : Sound(t) /\ Guarded(t, FALSE) }
Starts(w) == IF Theme \in {"look", "leaf", "span", "obj"} THEN 0..Len(w)
             ELSE IF Theme = "word" THEN { p \in 0..Len(w) : p = Len(w) \/ ~A!Cont(w[p + 1]) } ELSE {0}
Init ==
  \E t \in TermsAll : \E w \in Words(MaxLen) : \E p \in Starts(w) :
    \E v \in (IF Theme = "reuse" THEN Words(MaxLen) ELSE {Other}) :
    /\ M!Init0([g |-> Nodes(t, 1), src |-> << w, v >>, fold |-> Fold, log |-> "all",
                runs |-> << [n |-> 1, s |-> 1, p |-> p, a |-> Below] >> \o
                         (IF Theme = "reuse" THEN << [n |-> 1, s |-> 2, p |-> 0, a |-> <<>>],
                                                     [n |-> 1, s |-> 1, p |-> 0, a |-> Below] >> ELSE <<>>)])
Next == M!Step \/ M!Terminated
Spec == Init /\ [][Next]_vars /\ WF_vars(M!Step)

Top == st[Len(st)]
IsPrefix(q, r) == Len(q) <= Len(r) /\ SubSeq(r, 1, Len(q)) = q

(* C01, C02, C03, C05, C06, C08, C20: every node returns what it denotes *)
Denotes == (pc = "ret") => D!Same3(D!Eval(ses, Top.n, Top.c0), rs.k, rs.m, cx)

(* C03, C26: ASTs on the stack when a parser is entered stay below what it adds *)
Undercuts == \E k \in 1..Len(ses.g) : ses.g[k].op = "match"
LowerStackKept == ~Undercuts =>
  /\ \A k \in 1..Len(st) : IsPrefix(IF st[k].c0.s = 2 THEN <<>> ELSE Below, st[k].c0.a)
  /\ (pc = "ret" /\ rs.k = "M") => IsPrefix(Top.c0.a, cx.a)

(* C03: whoever is called sees what the start of the failed attempt saw *)
NoResidue == (pc = "call" /\ st # <<>>) =>
  LET f == Top x == ses.g[f.n] IN
  /\ (x.op = "first") => (cx = f.c0)
  /\ (M!IsBase(x.op) /\ x.op # "first" /\ x.op # "custom" /\ f.j = 1) => (cx = f.sv)
  /\ (x.op \in {"lb", "lbn"}) => (cx.a = f.c0.a /\ f.c0.p - cx.p \in x.mn..x.mx)

(* C10: the tokens added by a parser tile what it consumed *)
RECURSIVE Tokens(_)
Tokens(as) == IF as = <<>> THEN <<>>
              ELSE (IF A!VKind(Head(as)) = "list" THEN Tokens(A!Kids(Head(as)))
                    ELSE << <<A!Pos(Head(as)), A!Ln(Head(as))>> >>) \o Tokens(Tail(as))
RECURSIVE Tiled(_, _, _)
Tiled(q, from, to) == IF q = <<>> THEN from = to
                      ELSE q[1][1] = from /\ Tiled(Tail(q), from + q[1][2], to)
Tiles == (Theme = "span" /\ pc = "ret" /\ rs.k = "M") =>
  Tiled(Tokens(SubSeq(cx.a, Len(Top.c0.a) + 1, Len(cx.a))), Top.c0.p, cx.p)

(* C09, C10, C12: a recogniser adds the text or the elements it moved over, or nothing at all *)
Spans == (pc = "ret" /\ M!IsLeaf(ses.g[Top.n].op) /\ ses.g[Top.n].op # "zero") =>
  LET c == Top.c0 new == SubSeq(cx.a, Len(c.a) + 1, Len(cx.a)) src == ses.src[c.s] IN
  IF rs.k # "M" THEN cx.p = c.p /\ cx.a = c.a
  ELSE /\ rs.l = cx.p - c.p /\ cx.p <= Len(src) /\ Len(new) <= 1
       /\ new = <<>> => rs.l = 0
       /\ new # <<>> =>
            /\ A!Pos(new[1]) = c.p /\ A!Ln(new[1]) = rs.l
            /\ \/ A!Val(new[1]) = SubSeq(src, c.p + 1, cx.p)
               \/ A!Val(new[1]) = <<239, 191, 189>> /\ rs.l = 1  \* for an invalid byte

(* C26: source and tag stay those of the parse, or the tag is the one a callback of it has set; *)
(* a parse inside a callback has its own *)
Setters == \E k \in 1..Len(ses.g) : ses.g[k].op = "hl" /\ ses.g[k].t.u # 0
SameTag(u, v) == u = v \/ (Setters /\ u = Set)
OwnContext ==
  /\ \A k \in 1..Len(st) :
       LET f == st[k] IN
       IF k > 1 /\ ses.g[st[k-1].n].op = "reent" THEN f.c0.s = 2 /\ f.c0.u = -st[k-1].n
       ELSE IF k > 1 THEN f.c0.s = st[k-1].c0.s /\ SameTag(f.c0.u, st[k-1].c0.u)
       ELSE f.c0.s = ses.runs[run].s /\ f.c0.u = run
  /\ pc \notin {"start", "call", "back", "endrun", "done"} => (cx.s = Top.c0.s /\ SameTag(cx.u, Top.c0.u))
  /\ (ev # <<>> /\ ev[1] \in {"c", "f", "t"}) =>
       LET e == Len(ev) IN \/ SameTag(ev[e], run) /\ ev[e-1] = ses.runs[run].s
                           \/ (ev[e] < 0 \/ SameTag(ev[e], 0)) /\ ev[e-1] = 2

(* C26: a tag that was set is forgotten with the attempt that set it *)
TagForgotten == (pc = "call" /\ st # <<>>) =>
  LET f == Top x == ses.g[f.n] IN (x.op \in {"first", "lb", "lbn"}) => cx.u = f.c0.u

(* C27: a factory runs once *)
BuiltOnce == [][ev' # <<>> /\ ev'[1] = "b" => ev'[2] \notin bu]_vars

(* C05: a matched look-around changes nothing *)
ZeroWidth == (pc = "ret" /\ rs.k = "M" /\ ses.g[Top.n].op \in {"la", "lan", "lb", "lbn"}) => cx = Top.c0

(* C02: rounds within bounds; the reported count *)
Bounded == (pc = "ret" /\ rs.k = "M" /\ ses.g[Top.n].op \in {"rep", "star", "plus", "opt", "once"}) =>
  LET p == M!Props(ses.g[Top.n]) IN
  /\ rs.q >= p.mn /\ (p.mx >= 0 => rs.q <= p.mx) /\ rs.q = Top.ct

(* C04: after an error only returning goes on *)
ErrorIsFinal == [][rs.k = "E" /\ pc \in {"ret", "back"} => (pc' \in {"ret", "back", "endrun"} /\ rs' = rs)]_vars

(* C02: parsing ends *)
Ends == <>(pc = "done")
=============================================================================
