------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The parsing engine as a small-step machine.                              *)
(*                                                                          *)
(* A session is a record                                                    *)
(*   g     the grammar: a sequence of nodes (records with a field "op"),     *)
(*         sub-parsers are node numbers, so that grammars may be recursive   *)
(*   src   the sources (byte or value sequences)                             *)
(*   fold  case-folding orbits used by the sources                           *)
(*   runs  the parses made one after another with the one built parser,      *)
(*         [n |-> node, s |-> source, p |-> start offset, a |-> AST stack]   *)
(*   log   "all": every logged node reports; "root": only the whole parses   *)
(*                                                                          *)
(* A context is [p |-> offset, a |-> AST stack, s |-> source, u |-> user tag].*)
(* Each step is one named action; a step that the implementation shows to    *)
(* its environment (a call or return of a sub-parser, of an implementation   *)
(* function, of a transformer, of a factory) sets ev to that event.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Text, Asts, Leaves, TLC

CONSTANT Sess(_)           \* session number |-> session record

VARIABLES ses,  \* session number
          pc,   \* control
          nd,   \* node to be called next
          st,   \* frames, last = innermost
          cx,   \* current context
          rs,   \* result being returned: [k |-> "M"/"U"/"E"/"P", m |-> message, q |-> count, l |-> length]
          bu,   \* nodes whose factory has run
          run,  \* index of the current parse
          ev    \* event shown by the last step, <<>> if none

vars == <<ses, pc, nd, st, cx, rs, bu, run, ev>>

S == Sess(ses)
G == S.g
NoRes == [k |-> "-", m |-> "", q |-> -1, l |-> -1]
Matched(q, l) == [k |-> "M", m |-> "", q |-> q, l |-> l]
Unm == [k |-> "U", m |-> "", q |-> -1, l |-> -1]
Err(m) == [k |-> "E", m |-> m, q |-> -1, l |-> -1]

Logged(n) == S.log = "all" /\ G[n].lg

(* The properties of the parsers that have sub-parsers: bounds, negation,    *)
(* alternation, rewinding. *)
P(mn, mx, ng, ex, rw) == [mn |-> mn, mx |-> mx, ng |-> ng, ex |-> ex, rw |-> rw]
IsBase(op) == op \in {"flat", "group", "first", "la", "lan", "rep", "once", "opt", "star",
                      "plus", "trans", "custom", "dbg"}
Props(x) ==
  CASE x.op \in {"flat", "dbg"} -> P(1, 1, FALSE, FALSE, FALSE)
    [] x.op = "group" -> P(1, 1, FALSE, FALSE, FALSE)
    [] x.op = "trans" -> P(1, 1, FALSE, FALSE, FALSE)
    [] x.op = "first" -> P(1, 1, FALSE, TRUE, FALSE)
    [] x.op = "la"    -> P(1, 1, FALSE, FALSE, TRUE)
    [] x.op = "lan"   -> P(1, 1, TRUE, FALSE, TRUE)
    [] x.op = "once"  -> P(1, 1, FALSE, FALSE, FALSE)
    [] x.op = "opt"   -> P(0, 1, FALSE, FALSE, FALSE)
    [] x.op = "star"  -> P(0, -1, FALSE, FALSE, FALSE)
    [] x.op = "plus"  -> P(1, -1, FALSE, FALSE, FALSE)
    [] x.op = "rep"   -> P(x.mn, x.mx, FALSE, FALSE, FALSE)
    [] x.op = "custom" -> P(x.mn, x.mx, x.ng, x.ex, x.rw)
GroupTr == << [t |-> "group", lg |-> FALSE] >>
Trs(x) == IF x.op = "group" THEN GroupTr
          ELSE IF x.op \in {"trans", "custom", "match"} THEN x.tr ELSE <<>>
HasFn(x) == x.op = "custom" /\ x.fn.k = "fn"

(* What a scripted implementation function does in round c (or -1 at the end): *)
(* an action record [r |-> "M"/"U"/"E", m, adv, as]                            *)
FnAct(x, c) == IF c < 0 THEN x.fn.fin
               ELSE IF c < Len(x.fn.rounds) THEN x.fn.rounds[c + 1] ELSE x.fn.rest

(* Scripted terminals: [on |-> byte or -1, t |-> action, e |-> action]; act "t" if *)
(* the byte at the offset is "on" *)
HLAct(x, c, src) ==
  IF x.on >= 0 /\ c.p < Len(src) /\ src[c.p + 1] = x.on THEN x.t ELSE x.e
(* "P": the callback panics; the panic goes through every parser to the caller *)
Panics(m) == [k |-> "P", m |-> m, q |-> -1, l |-> -1]
ActRes(a) == CASE a.r = "M" -> Matched(-1, -1) [] a.r = "U" -> Unm [] a.r = "E" -> Err(a.m) [] a.r = "P" -> Panics(a.m)
Fails(k) == k \in {"E", "P"}
ActCtx(a, c) == [c EXCEPT !.p = @ + a.adv, !.a = @ \o a.as, !.u = IF a.u = 0 THEN @ ELSE a.u]

Frame(n, c) == [n |-> n, c0 |-> c, sv |-> c, pv |-> c, j |-> 0, ct |-> 0, nm |-> 0,
                x |-> 0, li |-> <<>>]
Top == Last(st)
SetTop(f) == SubSeq(st, 1, Len(st) - 1) \o <<f>>

(* ------------------------------------------------------------------ *)
Init0(s) ==
  /\ ses = s /\ pc = "start" /\ nd = 0 /\ st = <<>> /\ rs = NoRes /\ bu = {} /\ run = 0
  /\ ev = <<>> /\ cx = [p |-> 0, a |-> <<>>, s |-> 1, u |-> 0]

StartRun ==
  /\ pc = "start" /\ run < Len(S.runs)
  /\ run' = run + 1
  /\ LET r == S.runs[run + 1] IN
     /\ cx' = [p |-> r.p, a |-> r.a, s |-> r.s, u |-> run + 1]
     /\ nd' = r.n
  /\ pc' = "call" /\ ev' = <<>>
  /\ UNCHANGED <<ses, st, rs, bu>>

Call ==
  /\ pc = "call"
  /\ LET x == G[nd] IN
     /\ st' = Append(st, Frame(nd, cx))
     /\ pc' = CASE IsLeaf(x.op) \/ x.op = "hl" -> "leaf"
                [] IsBase(x.op) -> "iter"
                [] x.op \in {"lb", "lbn"} -> "look"
                [] x.op = "ind" -> "build"
                [] x.op = "if"  -> "pass"
                [] x.op = "match" -> "case"
                [] x.op = "reent" -> "reent"
     /\ ev' = IF Logged(nd) THEN <<"c", nd, cx.p, cx.a, cx.s, cx.u>> ELSE <<>>
  /\ UNCHANGED <<ses, nd, cx, rs, bu, run>>

(* --- terminals ------------------------------------------------------ *)
Leaf ==
  /\ pc = "leaf"
  /\ LET x == G[Top.n] src == S.src[cx.s] IN
     IF x.op = "hl"
     THEN LET a == HLAct(x, cx, src) IN
          /\ rs' = ActRes(a)
          /\ cx' = IF a.r = "U" THEN cx ELSE ActCtx(a, cx)
     ELSE LET r == LeafStep(x, src, cx.p, S.fold) IN
          /\ rs' = CASE r.st = "M" -> Matched(-1, r.n) [] r.st = "U" -> Unm [] r.st = "E" -> Err(r.m)
          /\ cx' = [cx EXCEPT !.p = @ + r.n, !.a = @ \o r.as]
  /\ pc' = "ret" /\ ev' = <<>>
  /\ UNCHANGED <<ses, nd, st, bu, run>>

(* --- parsers with sub-parsers: rounds of children ------------------------- *)
RoundStart ==
  /\ pc = "iter"
  /\ LET f == Top p == Props(G[f.n]) IN
     IF p.mx < 0 \/ f.ct < p.mx
     THEN /\ st' = SetTop([f EXCEPT !.sv = cx, !.nm = 0, !.j = 0])
          /\ pc' = "child"
     ELSE /\ pc' = "fin" /\ UNCHANGED st
  /\ ev' = <<>>
  /\ UNCHANGED <<ses, nd, cx, rs, bu, run>>

ChildStart ==
  /\ pc = "child"
  /\ LET f == Top x == G[f.n] IN
     IF f.j < Len(x.ch) /\ ~(IsBase(x.op) /\ Props(x).ex /\ f.nm > 0)
     THEN /\ st' = SetTop([f EXCEPT !.pv = cx, !.j = @ + 1])
          /\ nd' = x.ch[f.j + 1]
          /\ pc' = "call" /\ UNCHANGED cx
     ELSE IF Props(x).ex /\ Len(x.ch) > 0 /\ f.nm = 0
     THEN (* no alternative matched: the round is undone *)
          /\ cx' = f.sv /\ pc' = "fin" /\ UNCHANGED <<st, nd>>
     ELSE /\ pc' = "round" /\ UNCHANGED <<st, nd, cx>>
  /\ ev' = <<>>
  /\ UNCHANGED <<ses, rs, bu, run>>

(* a round is complete: the implementation function, if any, is asked *)
RoundDone ==
  /\ pc = "round"
  /\ LET f == Top x == G[f.n] IN
     IF HasFn(x)
     THEN LET a == FnAct(x, f.ct) IN
          /\ ev' = IF Logged(f.n) THEN <<"f", f.n, f.nm, Len(f.c0.a), f.ct, cx.p, cx.a, cx.s, cx.u>> ELSE <<>>
          /\ IF Fails(a.r) THEN /\ rs' = ActRes(a) /\ cx' = ActCtx(a, cx) /\ pc' = "ret" /\ UNCHANGED st
             ELSE IF a.r = "U" THEN /\ cx' = f.sv /\ pc' = "fin" /\ UNCHANGED <<rs, st>>
             ELSE /\ cx' = ActCtx(a, cx) /\ pc' = "iter"
                  /\ st' = SetTop([f EXCEPT !.ct = @ + 1]) /\ UNCHANGED rs
     ELSE /\ ev' = <<>> /\ pc' = "iter" /\ st' = SetTop([f EXCEPT !.ct = @ + 1])
          /\ UNCHANGED <<rs, cx>>
  /\ UNCHANGED <<ses, nd, bu, run>>

Finish ==
  /\ pc = "fin"
  /\ LET f == Top x == G[f.n] p == Props(x)
         few == p.mn >= 0 /\ f.ct < p.mn
         no  == few # p.ng
         a   == IF HasFn(x) THEN FnAct(x, -1) ELSE [r |-> "M", m |-> "", adv |-> 0, as |-> <<>>, u |-> 0]
         c1  == ActCtx(a, cx)
     IN
     IF no THEN /\ rs' = Unm /\ pc' = "ret" /\ ev' = <<>> /\ UNCHANGED <<cx, st>>
     ELSE
     /\ ev' = IF HasFn(x) /\ Logged(f.n)
              THEN <<"f", f.n, -1, Len(f.c0.a), f.ct, cx.p, cx.a, cx.s, cx.u>> ELSE <<>>
     /\ IF Fails(a.r) THEN /\ rs' = ActRes(a) /\ cx' = c1 /\ pc' = "ret" /\ UNCHANGED st
        ELSE IF a.r = "U" THEN /\ rs' = Unm /\ cx' = c1 /\ pc' = "ret" /\ UNCHANGED st
        ELSE LET c2 == IF p.rw THEN f.c0 ELSE c1 IN
             /\ cx' = c2
             /\ st' = SetTop([f EXCEPT !.li = DropN(c2.a, Len(f.c0.a)), !.x = 0])
             /\ pc' = "trans" /\ UNCHANGED rs
  /\ UNCHANGED <<ses, nd, bu, run>>

(* transformers, one by one, on the ASTs added (or taken) by this parser *)
TransStep ==
  /\ pc = "trans"
  /\ LET f == Top x == G[f.n]
         trs == IF x.op = "match" THEN x.cases[f.ct].tr ELSE Trs(x)
         below == IF x.op = "match" THEN IF Len(f.c0.a) > x.n THEN Len(f.c0.a) - x.n ELSE 0
                  ELSE Len(f.c0.a)
     IN
     IF f.x < Len(trs)
     THEN LET t == trs[f.x + 1] r == Transform(t, f.li) IN
          /\ ev' = IF t.lg /\ Logged(f.n)
                   THEN <<"t", f.n, f.x + 1, f.li, f.c0.p, f.c0.a, f.c0.s, f.c0.u>> ELSE <<>>
          /\ IF r.ok THEN /\ st' = SetTop([f EXCEPT !.x = @ + 1, !.li = r.li])
                          /\ UNCHANGED <<pc, rs>>
             ELSE /\ rs' = Err(r.m) /\ pc' = "ret" /\ UNCHANGED st
          /\ UNCHANGED cx
     ELSE /\ cx' = IF trs = <<>> THEN cx  \* nothing to replace
                   ELSE [cx EXCEPT !.a = SubSeq(@, 1, below) \o f.li]
          /\ rs' = Matched(IF x.op = "match" \/ Props(x).rw THEN -1 ELSE f.ct, IF x.op = "match" THEN 0 ELSE -1)
          /\ pc' = "ret" /\ ev' = <<>> /\ UNCHANGED st
  /\ UNCHANGED <<ses, nd, bu, run>>

(* --- look-behind: the body is tried from n characters back, n = min..max --- *)
LookTry ==
  /\ pc = "look"
  /\ LET f == Top x == G[f.n] d == x.mn + f.x IN
     IF d > x.mx
     THEN /\ cx' = f.c0
          /\ rs' = IF x.op = "lbn" THEN Matched(-1, -1) ELSE Unm
          /\ pc' = "ret" /\ UNCHANGED <<st, nd>>
     ELSE IF f.c0.p - d < 0
     THEN /\ st' = SetTop([f EXCEPT !.x = @ + 1]) /\ UNCHANGED <<cx, rs, pc, nd>>
     ELSE /\ cx' = [f.c0 EXCEPT !.p = @ - d]
          /\ st' = SetTop([f EXCEPT !.x = @ + 1])
          /\ nd' = x.ch[1] /\ pc' = "call" /\ UNCHANGED rs
  /\ ev' = <<>>
  /\ UNCHANGED <<ses, bu, run>>

(* --- lazily built parser, conditional --------------------------------- *)
Build ==
  /\ pc = "build"
  /\ LET n == Top.n IN
     /\ ev' = IF n \notin bu /\ G[n].bl /\ Logged(n) THEN <<"b", n>> ELSE <<>>
     /\ bu' = bu \union {n}
     /\ nd' = G[n].ch[1]
  /\ pc' = "call"
  /\ UNCHANGED <<ses, st, cx, rs, run>>

PassTo ==
  /\ pc = "pass" /\ pc' = "call" /\ nd' = G[Top.n].ch[1] /\ ev' = <<>>
  /\ UNCHANGED <<ses, st, cx, rs, bu, run>>

(* --- stack matching ------------------------------------------------------ *)
CaseTry ==
  /\ pc = "case"
  /\ LET f == Top x == G[f.n] k == f.ct + 1 IN
     IF k > Len(x.cases)
     THEN /\ rs' = Unm /\ pc' = "ret" /\ ev' = <<>> /\ UNCHANGED st
     ELSE LET yes == Pred(x.cases[k].pr, cx.a) IN
          /\ ev' = IF Logged(f.n) THEN <<"m", f.n, k, yes, cx.a>> ELSE <<>>
          /\ LET sp == IF Len(cx.a) > x.n THEN Len(cx.a) - x.n ELSE 0 IN
             st' = SetTop([f EXCEPT !.ct = k, !.x = 0, !.li = DropN(cx.a, sp)])
          /\ pc' = IF yes THEN "trans" ELSE "case"
          /\ UNCHANGED rs
  /\ UNCHANGED <<ses, nd, cx, bu, run>>

(* --- re-entrance: a terminal that parses another source with a node of the
   same grammar from inside its own callback, and reports the outcome -------- *)
Reenter ==
  /\ pc = "reent"
  /\ LET x == G[Top.n] IN
     /\ cx' = [p |-> 0, a |-> <<>>, s |-> x.to, u |-> 0 - Top.n]
     /\ nd' = x.ch[1]
  /\ pc' = "call" /\ ev' = <<>>
  /\ UNCHANGED <<ses, st, rs, bu, run>>

(* --- return: report, and let the caller go on ----------------------------- *)
Ret ==
  /\ pc = "ret"
  /\ LET f == Top IN
     /\ ev' = IF Logged(f.n) \/ (S.log = "root" /\ Len(st) = 1)
              THEN <<"r", f.n, rs.k, rs.m, cx.p, cx.a, rs.q, rs.l, cx.s, cx.u>> ELSE <<>>
     /\ st' = Front(st)
     /\ pc' = IF Len(st) = 1 THEN "endrun" ELSE "back"
  /\ UNCHANGED <<ses, nd, cx, rs, bu, run>>

Back ==
  /\ pc = "back"
  /\ LET f == Top x == G[f.n] IN
     CASE IsBase(x.op) ->
          IF Fails(rs.k) THEN pc' = "ret" /\ UNCHANGED <<st, cx, rs>>
          ELSE IF rs.k = "M"
          THEN /\ st' = SetTop([f EXCEPT !.nm = @ + 1]) /\ pc' = "child"
               /\ UNCHANGED <<cx, rs>>
          ELSE IF Props(x).ex
          THEN (* next alternative, from where this one began *)
               /\ cx' = f.pv /\ pc' = "child" /\ UNCHANGED <<st, rs>>
          ELSE (* the round is undone *)
               /\ cx' = f.sv /\ pc' = "fin" /\ UNCHANGED <<st, rs>>
       [] x.op \in {"lb", "lbn"} ->
          IF Fails(rs.k) THEN pc' = "ret" /\ UNCHANGED <<st, cx, rs>>
          ELSE IF rs.k = "M"
          THEN /\ cx' = f.c0 /\ pc' = "ret" /\ UNCHANGED st
               /\ rs' = IF x.op = "lbn" THEN Unm ELSE Matched(-1, -1)
          ELSE /\ pc' = "look" /\ cx' = f.c0 /\ UNCHANGED <<st, rs>>
       [] x.op = "ind" ->
          /\ pc' = "ret" /\ UNCHANGED <<st, cx>>
          /\ rs' = IF rs.k = "M" THEN Matched(-1, -1) ELSE rs
       [] x.op = "if" -> pc' = "ret" /\ UNCHANGED <<st, cx, rs>>
       [] x.op = "reent" /\ rs.k = "P" -> pc' = "ret" /\ UNCHANGED <<st, cx, rs>>
       [] x.op = "reent" /\ rs.k # "P" ->
          /\ cx' = [f.c0 EXCEPT !.a = Append(@,
                     MkAst("reent", "Any", rs.k, IF rs.k = "M" THEN <<cx.p>> ELSE <<>>,
                           IF rs.k = "M" THEN cx.a ELSE <<>>, 0, 0, 0))]
          /\ rs' = Matched(-1, -1) /\ pc' = "ret" /\ UNCHANGED st
  /\ ev' = <<>>
  /\ UNCHANGED <<ses, nd, bu, run>>

(* the caller's own AST stack must be as it was handed in *)
EndRun ==
  /\ pc = "endrun"
  /\ ev' = <<"o", S.runs[run].a>>
  /\ pc' = IF run < Len(S.runs) THEN "start" ELSE "done"
  /\ rs' = NoRes
  /\ UNCHANGED <<ses, nd, st, cx, bu, run>>

Step == \/ StartRun \/ Call \/ Leaf \/ RoundStart \/ ChildStart \/ RoundDone \/ Finish
        \/ TransStep \/ LookTry \/ Build \/ PassTo \/ CaseTry \/ Reenter \/ Ret \/ Back \/ EndRun

Terminated == pc = "done" /\ UNCHANGED vars
=============================================================================
