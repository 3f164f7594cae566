------------------------------ MODULE LocationMC ------------------------------
(* The scan and the definition agree after every byte of every short text. *)
EXTENDS Location
CONSTANT MaxLen
VARIABLES text, s
Init == text = <<>> /\ s = Scan0
Next == /\ Len(text) < MaxLen
        /\ \E b \in {97, TAB, CR, LF} : text' = Append(text, b) /\ s' = ScanByte(s, b)
Spec == Init /\ [][Next]_<<text, s>>
Agree == /\ s.i = Len(text)
         /\ s.line = LineNo(text, s.i)
         /\ s.start = LineStart(text, s.i)
         /\ s.line > 1 => s.prev = PrevStart(text, s.i)
         /\ s.col = ColNo(text, s.i)
(* all lines of a text are found, and at most the last is unfinished *)
WholeLines == Len(Lines(text, 0)) = s.line
=============================================================================
