------------------------------ MODULE ParseTrace ------------------------------
(***************************************************************************)
(* Trace validation: every recorded session of the real parsers must be a    *)
(* behaviour of Machine.  One initial state per session; the machine is      *)
(* deterministic, so a session is accepted iff every event the machine shows *)
(* is the next recorded one and none is left over.                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

VARIABLES ses, pc, nd, st, cx, rs, bu, run, ev,
          sn,   \* steps made
          i,    \* recorded events consumed
          good  \* the last shown event was the recorded one

Trace == ndJsonDeserialize(IOEnv.TRACE)
TSess(s) == Trace[s]

M == INSTANCE Machine WITH Sess <- TSess
D == INSTANCE Peg

vars == <<ses, pc, nd, st, cx, rs, bu, run, ev, sn, i, good>>

Evs == Trace[ses].ev

(* e: shown by the machine; t: recorded.  Fields the properties do not speak  *)
(* about (e.g. the position after "not matched") are not compared. *)
Fits(e, t) ==
  /\ e[1] = t[1]
  /\ IF e[1] # "r" THEN e = t
     ELSE /\ e[2] = t[2] /\ e[3] = t[3]
          /\ e[3] = "E" => (e[4] = t[4] /\ e[5] = t[5])
          /\ e[3] = "M" => /\ e[5] = t[5] /\ e[6] = t[6]
                           /\ (e[7] >= 0 => e[7] = t[7])
                           /\ (e[8] >= 0 => e[8] = t[8])
                           /\ e[9] = t[9] /\ e[10] = t[10]

Init == /\ \E s \in 1..Len(Trace) : M!Init0(s)
        /\ i = 0 /\ good = TRUE /\ sn = 0

Over == pc = "done" \/ (i = Len(Evs) /\ Trace[ses].end = "cut")

Next == \/ /\ ~Over
           /\ M!Step /\ sn' = sn + 1
           /\ IF ev' = <<>> THEN UNCHANGED <<i, good>>
              ELSE /\ i' = i + 1
                   /\ good' = (i < Len(Evs) /\ Fits(ev', Evs[i + 1]))
        \/ Over /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

Conforms == /\ good
            /\ pc = "done" => i = Len(Evs)

(* the outcome of each whole parse is what the grammar denotes *)
Denotes == (pc = "ret" /\ Len(st) = 1) =>
             D!Same3(D!Eval(Trace[ses], st[1].n, st[1].c0), rs.k, rs.m, cx)

(* the machine is deterministic: a session and a step number name the state *)
View == <<ses, sn>>

Alias == [session |-> Trace[ses].id, consumed |-> i, shown |-> ev, pc |-> pc,
          recorded |-> IF i >= 1 /\ i <= Len(Evs) THEN Evs[i] ELSE <<>>]
=============================================================================
