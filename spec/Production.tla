------------------------------- MODULE Production -------------------------------
(***************************************************************************)
(* Production rules on a list of ASTs.                                      *)
(* levels: a sequence of [rtol, rules], highest precedence first; a rule is   *)
(* [n |-> node of the grammar g (a pattern over the list), tr |-> what is     *)
(* done with the ASTs it matched].                                          *)
(***************************************************************************)
EXTENDS Peg

On(g, list) == [g |-> g, src |-> <<list>>, fold |-> <<>>]
(* a pattern that begins with a class the AST there does not have cannot match *)
Hopeless(g, n, list, pos) ==
  LET x == g[n] IN
  /\ x.op = "flat" /\ Len(x.ch) > 0
  /\ LET y == g[x.ch[1]] IN
     /\ y.op = "acls"
     /\ pos < Len(list) => \A k \in 1..Len(y.cns) : y.cns[k] # Cls(list[pos + 1])
Try(g, n, list, pos) ==
  LET c == [p |-> pos, a |-> <<>>, s |-> 1, u |-> 1] IN
  IF Hopeless(g, n, list, pos) THEN No(c) ELSE Eval(On(g, list), n, c)

(* All ways a level could apply, in the order of preference: positions from the left
   (or from the right), at each position the rules in their order. *)
Places(level, list) ==
  LET w == Len(list) + 1  k == Len(level.rules)
      PosOf(i) == IF level.rtol THEN Len(list) - i ELSE i
  IN [x \in 1..(w * k) |-> <<PosOf((x - 1) \div k), ((x - 1) % k) + 1>>]

None == [k |-> "U", l |-> 0, r |-> 0, pos |-> 0, m |-> "", c |-> [p |-> 0, a |-> <<>>, s |-> 1, u |-> 1]]
RECURSIVE FirstIn(_, _, _, _, _)
FirstIn(g, levels, l, list, x) == \* the first of the places of levels l, l+1, ... that does not fail
  IF l > Len(levels) THEN None
  ELSE LET pl == Places(levels[l], list) IN
       IF x > Len(pl) THEN FirstIn(g, levels, l + 1, list, 1)
       ELSE LET o == Try(g, levels[l].rules[pl[x][2]].n, list, pl[x][1]) IN
            IF o.k = "U" THEN FirstIn(g, levels, l, list, x + 1)
            ELSE [k |-> o.k, l |-> l, r |-> pl[x][2], pos |-> pl[x][1], m |-> o.m, c |-> o.c]
Applicable(g, levels, list) == FirstIn(g, levels, 1, list, 1)

Accepted(g, chk, list) == Try(g, chk, list, 0).k = "M"

(* one rewrite by the applicable rule: the matched part is replaced *)
Replaced(list, pos, end, as) == SubSeq(list, 1, pos) \o as \o DropN(list, end)
Outcome(levels, list, f) == \* f applicable with k = "M": [ok, li (new list), m]
  LET r == Chain(levels[f.l].rules[f.r].tr, f.c.a) IN
  IF r.ok THEN Ok(Replaced(list, f.pos, f.c.p, r.li)) ELSE Bad(r.m)
=============================================================================
