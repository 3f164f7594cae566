--------------------------------- MODULE Tracer ---------------------------------
(***************************************************************************)
(* Debug tracing: scopes while parsers are built, events while they run.      *)
(*                                                                          *)
(* A scope is [on, path, tr]: whether parsers are traced, the names of the     *)
(* enclosing scopes, the tracer.  A parser belongs to the scope it is built   *)
(* in.  Events are tuples: kind "B" before, "A" after, "P" panic; tracer;      *)
(* path; number; node (0: one of the library's own); class name; ...          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

NoScope == [on |-> FALSE, path |-> <<"">>, tr |-> 0]
Inside(sc, name, tr) == [on |-> TRUE, path |-> Append(sc.path, name), tr |-> tr]

(* ---- building: which scope the nodes of a grammar come into ------------------ *)
(* Sub-parsers are built where their parent is; those of a lazily built parser      *)
(* when it is first called, outside of all scopes.  m: scopes of the nodes, node     *)
(* numbers as domain, "not built" is Unbuilt.                                      *)
Unbuilt == [on |-> FALSE, path |-> <<"unbuilt">>, tr |-> 0]
RECURSIVE Built(_, _, _, _), BuiltAll(_, _, _, _, _)
Built(g, n, sc, m) ==
  IF m[n] # Unbuilt THEN m
  ELSE LET x == g[n]
           inner == IF x.op = "dbg" THEN Inside(sc, x.scope, x.tr) ELSE sc
           m1 == [m EXCEPT ![n] = sc]
       IN IF x.op = "ind" \/ "ch" \notin DOMAIN x THEN m1 ELSE BuiltAll(g, x.ch, 1, inner, m1)
BuiltAll(g, ch, k, sc, m) == IF k > Len(ch) THEN m ELSE BuiltAll(g, ch, k + 1, sc, Built(g, ch[k], sc, m))

(* ---- running: what every log of events obeys ------------------------------------ *)
(* open: events whose closing event is to come; known: the numbers seen, with what     *)
(* they stand for                                                                    *)
Who(e) == <<e[4], e[2], e[3], e[6]>>  \* number, tracer, path, class
Opens(e) == e[1] = "B"
Closes(e) == e[1] \in {"A", "P"}
Consistent(known, e) == \A w \in known : (w[1] = e[4] => w = Who(e))
                                         /\ (e[5] > 0 /\ w[4] = e[6] => w[1] = e[4])
Obeys(open, known, e) ==
  IF Opens(e) THEN Consistent(known, e)
  ELSE Closes(e) /\ open # <<>> /\ open[Len(open)] = Who(e)
OpenAfter(open, e) == IF Opens(e) THEN Append(open, Who(e)) ELSE SubSeq(open, 1, Len(open) - 1)
=============================================================================
