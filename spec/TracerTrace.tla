------------------------------- MODULE TracerTrace -------------------------------
(***************************************************************************)
(* Recorded sessions of traced parsers.  Machine runs the grammar (in which    *)
(* opening a scope is a plain group, so that tracing must not change any       *)
(* result); the calls and returns it shows of the parsers with callbacks must   *)
(* be the recorded events of those among them that were built in a scope,       *)
(* between which the library's own parsers may have theirs.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES ses, pc, nd, st, cx, rs, bu, run, ev, sn, i, good,
          sc,    \* scopes of the nodes
          open, known

Trace == ndJsonDeserialize(IOEnv.TRACE)
TSess(s) == Trace[s]
M == INSTANCE Machine WITH Sess <- TSess
T == INSTANCE Tracer
vars == <<ses, pc, nd, st, cx, rs, bu, run, ev, sn, i, good, sc, open, known>>

Evs == Trace[ses].ev
G == Trace[ses].g

Own(e) == e[1] \in {"B", "A", "P"} /\ e[5] > 0
Foreign(e) == e[1] \in {"B", "A", "P"} /\ e[5] = 0
Scopes == {<<sc[n].tr, sc[n].path>> : n \in {n \in 1..Len(sc) : sc[n].on}}
          \cup {<<G[n].tr, Append(sc[n].path, G[n].scope)>> : n \in {n \in 1..Len(G) : G[n].op = "dbg" /\ sc[n] # T!Unbuilt}}

(* q: [i, open, known, ok] *)
TakeEvent(q, e) == [i |-> q.i + 1,
               ok |-> q.ok /\ T!Obeys(q.open, q.known, e) /\ <<e[2], e[3]>> \in Scopes,
               open |-> IF T!Obeys(q.open, q.known, e) THEN T!OpenAfter(q.open, e) ELSE q.open,
               known |-> q.known \cup {T!Who(e)}]
Now == [i |-> i, open |-> open, known |-> known, ok |-> TRUE]

(* the machine's event for a traced node *)
FitsTraced(e, t) ==
  LET s == sc[e[2]] IN
  /\ Own(t) /\ t[5] = e[2] /\ t[2] = s.tr /\ t[3] = s.path
  /\ CASE e[1] = "c" -> t[1] = "B" /\ t[7] = e[3] /\ t[8] = e[4]
       [] e[1] = "r" /\ e[3] = "P" -> t[1] = "P" /\ t[7] = e[4]
       [] e[1] = "r" /\ e[3] # "P" ->
            /\ t[1] = "A" /\ t[7] = e[3]
            /\ e[3] = "E" => t[8] = e[4] /\ t[9] = e[5]
            /\ e[3] = "M" => t[9] = e[5] /\ t[10] = e[6]
FitsRoot(t) ==
  /\ t[1] = "R" /\ t[2] = rs.k
  /\ rs.k \in {"E", "P"} => t[3] = rs.m
  /\ rs.k \in {"E", "M"} => t[4] = cx.p
  /\ rs.k = "M" => t[5] = cx.a

Traced(e) == e # <<>> /\ e[1] \in {"c", "r"} /\ sc[e[2]].on
AfterOwn(e, q) ==
  IF ~Traced(e) THEN q
  ELSE IF q.i < Len(Evs) /\ FitsTraced(e, Evs[q.i + 1]) THEN TakeEvent(q, Evs[q.i + 1]) ELSE [q EXCEPT !.ok = FALSE]
AfterRoot(q) ==
  IF ~(pc = "ret" /\ Len(st) = 1) THEN q
  ELSE [q EXCEPT !.ok = @ /\ q.i < Len(Evs) /\ q.open = <<>> /\ FitsRoot(Evs[q.i + 1]), !.i = @ + 1]
AfterRun(e, q) ==
  IF e = <<>> \/ e[1] # "o" THEN q
  ELSE [q EXCEPT !.ok = @ /\ q.i < Len(Evs) /\ Evs[q.i + 1][1] = "o" /\ Evs[q.i + 1][2] = e[2], !.i = @ + 1]
(* the parsers of the runs, then what lazily built parsers come to build *)
RECURSIVE Roots(_, _), Lazies(_, _)
Lazies(n, m) == IF n > Len(G) THEN m
                ELSE Lazies(n + 1, IF G[n].op = "ind" THEN T!Built(G, G[n].ch[1], T!NoScope, m) ELSE m)
Roots(k, m) == IF k > Len(Trace[ses].runs) THEN Lazies(1, m)
               ELSE Roots(k + 1, T!Built(G, Trace[ses].runs[k].n, T!NoScope, m))

Init == /\ \E s \in 1..Len(Trace) : M!Init0(s)
        /\ i = 0 /\ good = TRUE /\ sn = 0 /\ open = <<>> /\ known = {} /\ sc = <<>>

Over == pc = "done" \/ ~good \/ (Trace[ses].end = "cut" /\ i = Len(Evs))

Begin == /\ sn = 0 /\ sn' = 1
         /\ sc' = Roots(1, [n \in 1..Len(G) |-> T!Unbuilt])
         /\ UNCHANGED <<ses, pc, nd, st, cx, rs, bu, run, ev, i, good, open, known>>
Ahead == i < Len(Evs) /\ Foreign(Evs[i + 1])
Set(q) == i' = q.i /\ good' = q.ok /\ open' = q.open /\ known' = q.known
(* an event of one of the library's own parsers *)
Skip == /\ sn > 0 /\ ~Over /\ Ahead /\ sn' = sn + 1
        /\ Set(TakeEvent(Now, Evs[i + 1]))
        /\ UNCHANGED <<ses, pc, nd, st, cx, rs, bu, run, ev, sc>>
Go == /\ sn > 0 /\ ~Over /\ ~Ahead
      /\ M!Step /\ sn' = sn + 1
      /\ Set(AfterRun(ev', AfterRoot(AfterOwn(ev', Now))))
      /\ UNCHANGED sc
Next == Begin \/ Skip \/ Go \/ (sn > 0 /\ Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Conforms == /\ good
            /\ pc = "done" => i = Len(Evs)
            /\ Trace[ses].end \in {"done", "cut"}
(* tracing is off the scopes it was switched on in: the open events are calls in progress *)
InProgress == \A k \in 1..Len(open) : \E w \in known : w = open[k]

View == <<ses, sn>>
Alias == [session |-> Trace[ses].id, consumed |-> i, shown |-> ev, pc |-> pc, open |-> open,
          next |-> IF i < Len(Evs) THEN Evs[i + 1] ELSE <<>>]
=============================================================================
