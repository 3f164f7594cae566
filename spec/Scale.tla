---------------------------------- MODULE Scale ----------------------------------
(***************************************************************************)
(* What parametric grammars mean, in closed form: sizes far beyond what the  *)
(* machine is stepped through (tens of thousands of rounds, tokens, levels).  *)
(* Want(c) is the outcome of the case c of kind c.kind with the sizes c.n,    *)
(* c.m: [k, m (error), p (position), a (ASTs)].  For small sizes ScaleTrace    *)
(* compares it with Peg on the grammar itself.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Asts

M(p, a) == [k |-> "M", m |-> "", p |-> p, a |-> a]
U == [k |-> "U", m |-> "", p |-> 0, a |-> <<>>]
E(m, p) == [k |-> "E", m |-> m, p |-> p, a |-> <<>>]

Min(a, b) == IF a < b THEN a ELSE b
Tk(b, p) == StrAst("Seq", b, p, Len(b))
As(n, p) == [i \in 1..n |-> Tk(<<97>>, p + i - 1)]     \* tokens "a" from p on
Group(li) == <<"Group", "ListOfAst", "list", <<>>, li, 0, 0, 0>>
Mark(cn) == StrAst(cn, <<>>, 0, 0)
RECURSIVE Nest(_, _)
Nest(n, li) == IF n = 0 THEN li ELSE Nest(n - 1, <<Group(li)>>)
Times(b, n) == [i \in 1..(n * Len(b)) |-> b[((i - 1) % Len(b)) + 1]]
Below(n) == [i \in 1..n |-> <<"i", "Int", "int", <<48 + (i % 10)>>, <<>>, 0, 0, 0>>]
Digit(i) == 48 + i
(* the number i in four digits to base ten *)
Four(i) == << Digit(i \div 1000), Digit((i \div 100) % 10), Digit((i \div 10) % 10), Digit(i % 10) >>
(* what the classes of the strings 0000, 0001, ... and the ranges from U+4E00 on take *)
CharAt(i) == LET r == 19968 + i IN << 224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64) >>

Want(c) ==
  LET n == c.n  m == c.m IN
  CASE c.kind = "star" -> M(n, As(n, 0))
    [] c.kind = "bounds" -> IF n < m THEN U ELSE M(Min(n, m + 2), As(Min(n, m + 2), 0))
    (* rounds of two: a lone "a" at the end is given back *)
    [] c.kind = "pairs" -> M(2 * (n \div 2), As(2 * (n \div 2), 0))
    (* the implementation function ends the repetition in round m, undoing it *)
    [] c.kind = "endfn" -> IF n > m THEN M(m, As(m, 0)) ELSE M(n, As(n, 0))
    [] c.kind = "alts" -> IF m >= n THEN U ELSE M(4, <<Tk(Four(m), 0)>>)
    [] c.kind = "parts" -> IF m < n THEN U ELSE M(n, As(n, 0))
    [] c.kind = "flats" -> M(1, As(1, 0))
    [] c.kind = "groups" -> M(1, Nest(n, As(1, 0)))
    [] c.kind = "lazies" -> M(1, As(1, 0))
    (* R = "(" R ")" | "x" *)
    [] c.kind = "recursion" ->
         IF m < n THEN U
         ELSE M(2 * n + 1, [i \in 1..(2 * n + 1) |-> Tk(<<IF i <= n THEN 40 ELSE IF i = n + 1 THEN 120 ELSE 41>>, i - 1)])
    (* "x" a*: looking back up to m for the x *)
    [] c.kind = "behind" -> IF n + 1 <= m THEN M(n + 1, <<Tk(<<120>>, 0)>>) ELSE U
    [] c.kind = "behindnot" -> IF n + 1 <= m THEN U ELSE M(n + 1, <<Tk(<<120>>, 0)>>)
    [] c.kind = "ahead" -> M(0, <<>>)
    [] c.kind = "negations" -> IF n % 2 = 0 THEN M(0, <<>>) ELSE U
    (* the topmost m of n ASTs are grouped *)
    [] c.kind = "fold" -> M(n, As(n - Min(m, n), 0) \o <<Group(As(Min(m, n), n - Min(m, n)))>>)
    [] c.kind = "foldfail" -> M(n, As(n, 0))
    (* n transformers, each adds a mark *)
    [] c.kind = "chain" -> M(1, As(1, 0) \o [i \in 1..n |-> Mark("k")])
    [] c.kind = "roll" -> LET d == m % n IN M(n, As(n - d, d) \o As(d, 0))
    [] c.kind = "concat" -> M(6 * n, << StrAst("Any", Times(<<97, 195, 169, 228, 184, 150>>, n), 0, 1) >>)
    [] c.kind = "long" -> IF m < n THEN U ELSE M(n, <<Tk(Times(<<97>>, n), 0)>>)
    [] c.kind = "longdiff" -> U
    [] c.kind = "objdiff" -> U
    (* the joined piece is of the first one's class *)
    [] c.kind = "concatfirst" -> M(n + 1, << StrAst("Seq", Times(<<97>>, n + 1), 0, 1) >>)
    [] c.kind = "strings" -> IF m >= n THEN U ELSE M(4, <<StrAst("CharClass", Four(m), 0, 4)>>)
    [] c.kind = "ranges" -> IF m >= n THEN U ELSE M(3, <<StrAst("CharRange", CharAt(2 * m), 0, 3)>>)
    [] c.kind = "below" -> M(2, Below(n) \o <<Tk(<<97>>, 0), Group(<<Tk(<<97>>, 1)>>)>>)
    (* n tokens are taken back before the next alternative takes m *)
    [] c.kind = "undo" -> IF n < m THEN U ELSE M(m, As(m, 0))
    [] c.kind = "error" -> E("E:1", n)
    [] c.kind = "errorshort" -> M(n, As(n, 0))
    [] c.kind = "erase" -> M(n + 1, <<Tk(<<98>>, n)>>)
    [] c.kind = "objects" -> M(n, [i \in 1..n |-> MkAst("OAny", "Any", "obj", <<i % 7>>, <<>>, i - 1, 1, 0)])
    [] c.kind = "objseq" -> IF m < n THEN U
                            ELSE M(n, <<MkAst("OSeq", "ListOfAny", "slice", [i \in 1..n |-> i % 7], <<>>, 0, n, 0)>>)
    [] c.kind = "objclass" -> IF m >= n THEN U
                              ELSE M(1, <<MkAst("ObjClass", "Any", "obj", <<m>>, <<>>, 0, 1, 0)>>)
    (* the same parser for the m-th time, after other texts and failures *)
    [] c.kind = "again" -> M(n, As(n, 0))
    [] c.kind = "slice" -> M(n, <<MkAst("OAny", "ListOfAny", "slice", [i \in 1..n |-> i % 7], <<>>, 0, 1, 0)>>)

Fits(c, w) == /\ c.k = w.k
              /\ w.k = "M" => c.p = w.p /\ c.a = w.a
              /\ w.k = "E" => c.p = w.p /\ c.e = w.m
=============================================================================
