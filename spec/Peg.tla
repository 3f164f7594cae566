---------------------------------- MODULE Peg ----------------------------------
(***************************************************************************)
(* What a grammar means, in one big step: the ordered-choice (PEG) reading.  *)
(* Eval(s, n, c) is the outcome of node n of session s in the context c:     *)
(*   [k |-> "M"/"U"/"E", m |-> error, c |-> context]                         *)
(* This is the denotation Machine must agree with; it has no control state,   *)
(* no saved contexts and no undoing: a failed attempt simply is not part of   *)
(* the result.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Text, Asts, Leaves

Yes(c)    == [k |-> "M", m |-> "", c |-> c]
No(c)     == [k |-> "U", m |-> "", c |-> c]
Fatal(m, c) == [k |-> "E", m |-> m, c |-> c]

Bounds(mn, mx, ng, ex, rw) == [mn |-> mn, mx |-> mx, ng |-> ng, ex |-> ex, rw |-> rw]
Shape(x) ==
  CASE x.op \in {"flat", "group", "trans", "once", "dbg"} -> Bounds(1, 1, FALSE, FALSE, FALSE)
    [] x.op = "first" -> Bounds(1, 1, FALSE, TRUE, FALSE)
    [] x.op = "la"    -> Bounds(1, 1, FALSE, FALSE, TRUE)
    [] x.op = "lan"   -> Bounds(1, 1, TRUE, FALSE, TRUE)
    [] x.op = "opt"   -> Bounds(0, 1, FALSE, FALSE, FALSE)
    [] x.op = "star"  -> Bounds(0, -1, FALSE, FALSE, FALSE)
    [] x.op = "plus"  -> Bounds(1, -1, FALSE, FALSE, FALSE)
    [] x.op = "rep"   -> Bounds(x.mn, x.mx, FALSE, FALSE, FALSE)
    [] x.op = "custom" -> Bounds(x.mn, x.mx, x.ng, x.ex, x.rw)

OwnTr(x) == CASE x.op = "group" -> << [t |-> "group"] >>
              [] x.op \in {"trans", "custom"} -> x.tr
              [] OTHER -> <<>>
Scripted(x) == x.op = "custom" /\ x.fn.k = "fn"
Does(act, c) == [c EXCEPT !.p = @ + act.adv, !.a = @ \o act.as, !.u = IF act.u = 0 THEN @ ELSE act.u]
Script(x, round) == IF round < Len(x.fn.rounds) THEN x.fn.rounds[round + 1] ELSE x.fn.rest

(* all transformers in order: the list, or the first error *)
RECURSIVE Chain(_, _)
Chain(trs, li) ==
  IF trs = <<>> THEN Ok(li)
  ELSE LET r == Transform(Head(trs), li) IN IF r.ok THEN Chain(Tail(trs), r.li) ELSE r

(* the ASTs above height h become the output of the transformers *)
Rewrite(trs, h, c) ==
  IF trs = <<>> THEN Yes(c)
  ELSE LET r == Chain(trs, DropN(c.a, h)) IN
       IF r.ok THEN Yes([c EXCEPT !.a = SubSeq(@, 1, h) \o r.li]) ELSE Fatal(r.m, c)

RECURSIVE Eval(_, _, _), Sequence(_, _, _), Choice(_, _, _), Rounds(_, _, _, _), Behind(_, _, _, _),
          Cases(_, _, _, _)

(* parts one after another *)
Sequence(s, ch, c) ==
  IF ch = <<>> THEN Yes(c)
  ELSE LET r == Eval(s, Head(ch), c) IN
       IF r.k = "M" THEN Sequence(s, Tail(ch), r.c) ELSE r

(* the first alternative that matches *)
Choice(s, ch, c) ==
  IF ch = <<>> THEN No(c)
  ELSE LET r == Eval(s, Head(ch), c) IN
       IF r.k = "U" THEN Choice(s, Tail(ch), c) ELSE r

Body(s, x, c) == IF Shape(x).ex THEN IF x.ch = <<>> THEN Yes(c) ELSE Choice(s, x.ch, c)
                 ELSE Sequence(s, x.ch, c)

(* complete rounds, as many as possible: [r |-> outcome, n |-> rounds] *)
Rounds(s, x, n, c) ==
  IF Shape(x).mx >= 0 /\ n >= Shape(x).mx THEN [r |-> Yes(c), n |-> n]
  ELSE LET b == Body(s, x, c) IN
       IF b.k = "E" THEN [r |-> b, n |-> n]
       ELSE IF b.k = "U" THEN [r |-> Yes(c), n |-> n]
       ELSE IF Scripted(x)
       THEN LET act == Script(x, n) IN
            IF act.r = "E" THEN [r |-> Fatal(act.m, Does(act, b.c)), n |-> n]
            ELSE IF act.r = "U" THEN [r |-> Yes(c), n |-> n]
            ELSE Rounds(s, x, n + 1, Does(act, b.c))
       ELSE Rounds(s, x, n + 1, b.c)

Repetition(s, x, c) ==
  LET w == Rounds(s, x, 0, c) IN
  IF w.r.k = "E" THEN w.r
  ELSE IF (w.n < Shape(x).mn) # Shape(x).ng THEN No(c)
  ELSE LET act == IF Scripted(x) THEN x.fn.fin ELSE [r |-> "M", m |-> "", adv |-> 0, as |-> <<>>, u |-> 0]
           c1  == Does(act, w.r.c)
       IN IF act.r = "E" THEN Fatal(act.m, c1)
          ELSE IF act.r = "U" THEN No(c)
          ELSE Rewrite(OwnTr(x), Len(c.a), IF Shape(x).rw THEN c ELSE c1)

(* does the body match from d, d+1, ... mx characters back *)
Behind(s, x, d, c) ==
  IF d > x.mx THEN No(c)
  ELSE IF c.p - d < 0 THEN Behind(s, x, d + 1, c)
  ELSE LET r == Eval(s, x.ch[1], [c EXCEPT !.p = @ - d]) IN
       IF r.k = "E" THEN r ELSE IF r.k = "M" THEN Yes(c) ELSE Behind(s, x, d + 1, c)

Cases(s, x, k, c) ==
  IF k > Len(x.cases) THEN No(c)
  ELSE IF Pred(x.cases[k].pr, c.a)
  THEN Rewrite(x.cases[k].tr, IF Len(c.a) > x.n THEN Len(c.a) - x.n ELSE 0, c)
  ELSE Cases(s, x, k + 1, c)

Eval(s, n, c) ==
  LET x == s.g[n] IN
  IF IsLeaf(x.op)
  THEN LET r == LeafStep(x, s.src[c.s], c.p, s.fold) IN
       IF r.st = "M" THEN Yes([c EXCEPT !.p = @ + r.n, !.a = @ \o r.as])
       ELSE IF r.st = "U" THEN No(c) ELSE Fatal(r.m, c)
  ELSE CASE x.op = "hl" ->
              (LET act == IF x.on >= 0 /\ c.p < Len(s.src[c.s]) /\ s.src[c.s][c.p + 1] = x.on
                          THEN x.t ELSE x.e
               IN IF act.r = "M" THEN Yes(Does(act, c))
                  ELSE IF act.r = "U" THEN No(c) ELSE Fatal(act.m, Does(act, c)))
         [] x.op \in {"ind", "if"} -> Eval(s, x.ch[1], c)
         [] x.op = "lb"  -> Behind(s, x, x.mn, c)
         [] x.op = "lbn" -> (LET r == Behind(s, x, x.mn, c) IN
                             IF r.k = "E" THEN r ELSE IF r.k = "M" THEN No(c) ELSE Yes(c))
         [] x.op = "match" -> Cases(s, x, 1, c)
         [] x.op = "reent" ->
              (LET r == Eval(s, x.ch[1], [p |-> 0, a |-> <<>>, s |-> x.to, u |-> 0 - n]) IN
               Yes([c EXCEPT !.a = Append(@,
                     MkAst("reent", "Any", r.k, IF r.k = "M" THEN <<r.c.p>> ELSE <<>>,
                           IF r.k = "M" THEN r.c.a ELSE <<>>, 0, 0, 0))]))
         [] OTHER -> Repetition(s, x, c)

(* outcome r of the big step, compared with what a machine reports *)
Same3(r, k, m, c) == /\ r.k = k
                     /\ k = "M" => r.c = c
                     /\ k = "E" => (r.m = m /\ r.c.p = c.p)
=============================================================================
