------------------------------ MODULE MachineGen ------------------------------
(***************************************************************************)
(* Writes the explored family of MachineMC as sessions to be replayed into    *)
(* the implementation: one per grammar, with all texts and start offsets.     *)
(***************************************************************************)
EXTENDS MachineMC, Json, IOUtils, SequencesExt

WordSeq == SetToSeq(Words(MaxLen))
(* the second source is the one parsed in between *)
Src == << WordSeq[1], Other >> \o Tail(WordSeq)
At(k) == IF k = 1 THEN 1 ELSE k + 1
RunSeq == SetToSeq({ <<k, p>> \in (1..Len(WordSeq)) \X (0..(2 * MaxLen)) : p \in Starts(WordSeq[k]) })
Runs == [k \in 1..Len(RunSeq) |-> [n |-> 1, s |-> At(RunSeq[k][1]), p |-> RunSeq[k][2], a |-> Below]]
TermSeq == SetToSeq(TermsAll)
Sessions == [k \in 1..Len(TermSeq) |-> [g |-> Nodes(TermSeq[k], 1), src |-> Src, fold |-> Fold, kind |-> Kind, runs |-> Runs]]
ASSUME ndJsonSerialize(IOEnv.OUT, Sessions)

NoInit == M!Init0(0)
NoNext == FALSE /\ UNCHANGED vars
=============================================================================
