-------------------------------- MODULE Location --------------------------------
(***************************************************************************)
(* Where an offset of a text lies: line, column, start of the line, and the  *)
(* excerpt that shows it.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CR == 13  LF == 10  TAB == 9  SPACE == 32

(* ---- by definition ------------------------------------------------------- *)
(* The text before the offset p decides; a line break ends at e (0 < e <= p)   *)
(* iff the byte before e is LF, or is CR and not followed by an LF of that text *)
BreakEnd(src, p, e) == \/ src[e] = LF
                       \/ src[e] = CR /\ ~(e < p /\ src[e + 1] = LF)
Breaks(src, p) == { e \in 1..p : BreakEnd(src, p, e) }
(* the last break end at or before m, 0 if there is none; by halves *)
RECURSIVE LastBreakIn(_, _, _, _)
LastBreakIn(src, p, a, b) ==
  IF a > b THEN 0
  ELSE IF a = b THEN IF BreakEnd(src, p, a) THEN a ELSE 0
  ELSE LET m == (a + b) \div 2 r == LastBreakIn(src, p, m + 1, b)
       IN IF r > 0 THEN r ELSE LastBreakIn(src, p, a, m)
LastBreak(src, p, m) == LastBreakIn(src, p, 1, m)

LineStart(src, p) == LastBreak(src, p, p)
PrevStart(src, p) == LET l == LineStart(src, p) IN IF l = 0 THEN 0 ELSE LastBreak(src, p, l - 1)
LineNo(src, p) == 1 + Cardinality(Breaks(src, p))
ColNo(src, p) == p - LineStart(src, p) + 1

(* the current line goes on to the next line break or the end; by halves *)
RECURSIVE BreakIn(_, _, _)  \* the first byte of a line break at a..b, 0 if there is none
BreakIn(src, a, b) ==
  IF a > b THEN 0
  ELSE IF a = b THEN IF src[a] \in {CR, LF} THEN a ELSE 0
  ELSE LET m == (a + b) \div 2 r == BreakIn(src, a, m)
       IN IF r > 0 THEN r ELSE BreakIn(src, m + 1, b)
LineEnd(src, e) == LET k == BreakIn(src, e + 1, Len(src)) IN IF k = 0 THEN Len(src) ELSE k - 1

(* text of the previous line without its line break *)
PrevText(src, p) ==
  LET a == PrevStart(src, p) b == LineStart(src, p)
      c == IF b > a + 1 /\ src[b] = LF /\ src[b - 1] = CR THEN b - 2 ELSE b - 1
  IN SubSeq(src, a + 1, c)
CurText(src, p) == SubSeq(src, LineStart(src, p) + 1, LineEnd(src, p))

Fill(n, b) == [k \in 1..n |-> b]
(* tabs become tab spaces each; by halves *)
RECURSIVE ExpandIn(_, _, _, _)
ExpandIn(t, a, b, tab) ==
  IF a > b THEN <<>>
  ELSE IF a = b THEN IF t[a] = TAB THEN Fill(tab, SPACE) ELSE <<t[a]>>
  ELSE LET m == (a + b) \div 2 IN ExpandIn(t, a, m, tab) \o ExpandIn(t, m + 1, b, tab)
Expand(t, tab) == ExpandIn(t, 1, Len(t), tab)

(* lines of the excerpt; the caret stands under the (expanded) column *)
Gutter == <<32, 32, 32, 124, 32>>  \* "   | "
Here   == <<32, 62, 32, 124, 32>>  \* " > | "
Caret  == <<94, 94, 94, 94>>
ExcerptLines(src, p, tab) ==
  LET cur == Here \o Expand(CurText(src, p), tab)
      mark == Gutter \o Fill(Len(Expand(SubSeq(src, LineStart(src, p) + 1, p), tab)), SPACE) \o Caret
  IN IF LineStart(src, p) = 0 THEN << cur, mark >>
     ELSE << Gutter \o Expand(PrevText(src, p), tab), cur, mark >>

(* lines of a text, whatever the kind of its line breaks *)
RECURSIVE Lines(_, _)
Lines(t, a) ==
  LET e == LineEnd(t, a)  \* from a on
      two == e + 2 <= Len(t) /\ t[e + 1] = CR /\ t[e + 2] = LF
  IN IF e = Len(t) THEN << SubSeq(t, a + 1, e) >>
     ELSE << SubSeq(t, a + 1, e) >> \o Lines(t, IF two THEN e + 2 ELSE e + 1)

(* ---- as a scan, byte by byte ------------------------------------------------- *)
(* state: offset reached, line, column, start of this and of the previous line,  *)
(* and whether the last byte was a CR (an LF that follows belongs to it)         *)
Scan0 == [i |-> 0, line |-> 1, col |-> 1, start |-> 0, prev |-> 0, cr |-> FALSE]
ScanByte(s, b) ==
  IF b = LF /\ s.cr
  THEN [s EXCEPT !.i = @ + 1, !.start = @ + 1, !.cr = FALSE]  \* the break only gets longer
  ELSE IF b \in {CR, LF}
  THEN [i |-> s.i + 1, line |-> s.line + 1, col |-> 1, start |-> s.i + 1, prev |-> s.start, cr |-> (b = CR)]
  ELSE [s EXCEPT !.i = @ + 1, !.col = @ + 1, !.cr = FALSE]
=============================================================================
