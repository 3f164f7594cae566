-------------------------------- MODULE TracerMC --------------------------------
(***************************************************************************)
(* The tracer with its package-wide setting.  A builder opens and closes       *)
(* scopes and makes parsers in any order (Build); then a parser is run, whose   *)
(* sub-parsers are called in any order, and each of which may come back or      *)
(* panic (Run).  The setting is one variable, saved at the opening of a scope    *)
(* and put back at its closing; what it gives a parser must be the scope the      *)
(* parser lies in.  Every log must obey Tracer.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Tracer

CONSTANTS Names, Tracers, MaxOps, MaxParsers, MaxCalls

VARIABLES ops,     \* operations so far
          setting, \* the package-wide setting
          saved,   \* stack: settings to be put back
          lex,     \* stack: scopes that are open, as the program text nests them
          parsers, \* sequence of [given, lies, no, kids]
          count,   \* numbers given
          loose,   \* stack of sets: parsers made in the open scopes and not yet in another
          phase, stack, log, calls
vars == <<ops, setting, saved, lex, parsers, count, loose, phase, stack, log, calls>>

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Put(s, x) == [s EXCEPT ![Len(s)] = x]

Init == /\ ops = 0 /\ setting = NoScope /\ saved = <<>> /\ lex = <<NoScope>> /\ parsers = <<>>
        /\ count = 0 /\ loose = <<{}>> /\ phase = "build" /\ stack = <<>> /\ log = <<>> /\ calls = 0

Running == UNCHANGED <<phase, stack, log, calls>>
Open(nm, t) ==
  /\ phase = "build" /\ ops < MaxOps /\ ops' = ops + 1
  /\ saved' = Append(saved, setting) /\ setting' = Inside(setting, nm, t)
  /\ lex' = Append(lex, Inside(Top(lex), nm, t)) /\ loose' = Append(loose, {})
  /\ UNCHANGED <<parsers, count>> /\ Running
New(given, lies, kids) ==
  /\ parsers' = Append(parsers, [given |-> given, lies |-> lies, no |-> IF given.on THEN count + 1 ELSE 0, kids |-> kids])
  /\ count' = IF given.on THEN count + 1 ELSE count
(* a parser over some of the parsers made in the same scope *)
Make(kids) ==
  /\ phase = "build" /\ ops < MaxOps /\ Len(parsers) < MaxParsers /\ ops' = ops + 1
  /\ New(setting, Top(lex), kids)
  /\ loose' = Put(loose, (Top(loose) \ kids) \cup {Len(parsers) + 1})
  /\ UNCHANGED <<setting, saved, lex>> /\ Running
(* the scope's own parser: made while the scope's setting is still in force *)
Close ==
  /\ phase = "build" /\ Len(lex) > 1 /\ Len(parsers) < MaxParsers
  /\ New(setting, Top(lex), Top(loose))
  /\ setting' = Top(saved) /\ saved' = Pop(saved) /\ lex' = Pop(lex)
  /\ loose' = Put(Pop(loose), Top(Pop(loose)) \cup {Len(parsers) + 1})
  /\ UNCHANGED ops /\ Running

Event(kind, n) == LET p == parsers[n] IN <<kind, p.given.tr, p.given.path, p.no, n, n>>
Show(kind, n) == log' = IF parsers[n].given.on THEN Append(log, Event(kind, n)) ELSE log
Building == UNCHANGED <<ops, setting, saved, lex, parsers, count, loose>>
Start(n) == /\ phase = "build" /\ Len(lex) = 1 /\ phase' = "run"
            /\ stack' = <<n>> /\ Show("B", n) /\ calls' = 1 /\ Building
Call(n) == /\ phase = "run" /\ stack # <<>> /\ n \in parsers[Top(stack)].kids /\ calls < MaxCalls
           /\ calls' = calls + 1 /\ stack' = Append(stack, n) /\ Show("B", n) /\ Building /\ UNCHANGED phase
Return == /\ phase = "run" /\ stack # <<>> /\ stack' = Pop(stack) /\ Show("A", Top(stack))
          /\ Building /\ UNCHANGED <<phase, calls>>
Panicking == /\ phase \in {"run", "panic"} /\ stack # <<>> /\ phase' = "panic"
             /\ stack' = Pop(stack) /\ Show("P", Top(stack)) /\ Building /\ UNCHANGED calls

Next == \/ \E nm \in Names, t \in Tracers : Open(nm, t)
        \/ \E kids \in SUBSET Top(loose) : Make(kids)
        \/ Close
        \/ \E n \in 1..Len(parsers) : Start(n) \/ Call(n)
        \/ Return \/ Panicking
        \/ (phase # "build" /\ stack = <<>> /\ UNCHANGED vars)
        \/ (phase = "build" /\ ops = MaxOps /\ Len(parsers) = MaxParsers /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* a parser is traced, and by whom and under which path, as the scope it lies in says *)
GivenIsLexical == \A n \in 1..Len(parsers) : parsers[n].given = parsers[n].lies
SettingIsLexical == setting = Top(lex)
(* the setting is off again when all scopes are closed *)
OffOutside == Len(lex) = 1 => setting = NoScope
NumbersDiffer == \A n, m \in 1..Len(parsers) : parsers[n].given.on /\ parsers[n].no = parsers[m].no => n = m

RECURSIVE Fold(_, _, _, _)
Fold(k, op, known, ok) ==
  IF k > Len(log) \/ ~ok THEN [open |-> op, ok |-> ok]
  ELSE LET o == Obeys(op, known, log[k]) IN
       Fold(k + 1, IF o THEN OpenAfter(op, log[k]) ELSE op, known \cup {Who(log[k])}, o)
RECURSIVE Pending(_)
Pending(k) == IF k > Len(stack) THEN <<>>
              ELSE (IF parsers[stack[k]].given.on THEN <<Who(Event("B", stack[k]))>> ELSE <<>>) \o Pending(k + 1)
(* the log obeys Tracer, and what is open in it are the traced calls in progress *)
LogObeys == phase # "build" => LET f == Fold(1, <<>>, {}, TRUE) IN f.ok /\ f.open = Pending(1)
=============================================================================
