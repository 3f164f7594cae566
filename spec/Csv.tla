---------------------------------- MODULE Csv ----------------------------------
(***************************************************************************)
(* Comma-separated text: what table a text stands for, what text a table is   *)
(* written as, and how records are read from a table and written to one.      *)
(* Texts, cells and column names are sequences of code points here.           *)
(***************************************************************************)
EXTENDS Text

QUOTE == 34  COMMA == 44
LineBreak(r) == InRanges(r, LBRanges)
Blank(r) == InRanges(r, WSNLRanges)
(* whitespace, which the edges of unquoted cells are cleaned of *)
Space(r) == InRanges(r, WSRanges)
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(t) == IF t # <<>> /\ Space(t[1]) THEN TrimLeft(Tail(t)) ELSE t
TrimRight(t) == IF t # <<>> /\ Space(t[Len(t)]) THEN TrimRight(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trimmed(t) == TrimRight(TrimLeft(t))

(* rows of one empty cell at the end are dropped *)
RECURSIVE DropBlank(_)
DropBlank(rows) == IF rows # <<>> /\ rows[Len(rows)] = << <<>> >> THEN DropBlank(SubSeq(rows, 1, Len(rows) - 1))
                   ELSE rows

(* ---- reading, character by character ------------------------------------------ *)
(* mode: lead  at a cell's start, only blanks so far (in cell)                       *)
(*       plain in an unquoted cell                                                   *)
(*       in    between quotes           close a quote was seen there                 *)
(*       after behind a quoted part     break behind a line break                    *)
(*       no    not a table                                                           *)
R0 == [mode |-> "lead", cell |-> <<>>, row |-> <<>>, rows |-> <<>>]
EndCell(q) == Append(q.row, IF q.mode \in {"lead", "plain"} THEN Trimmed(q.cell) ELSE q.cell)
Sep(q, r) == IF r = COMMA THEN [q EXCEPT !.mode = "lead", !.cell = <<>>, !.row = EndCell(q)]
             ELSE [q EXCEPT !.mode = "break", !.cell = <<>>, !.row = <<>>, !.rows = Append(@, EndCell(q))]
Reads(q, r) ==
  CASE q.mode = "no" -> q
    [] q.mode = "break" /\ LineBreak(r) -> q
    [] q.mode \in {"lead", "break"} /\ r = QUOTE -> [q EXCEPT !.mode = "in", !.cell = <<>>]
    [] q.mode \in {"lead", "plain", "break", "after", "close"} /\ (r = COMMA \/ LineBreak(r)) -> Sep(IF q.mode = "break" THEN [q EXCEPT !.mode = "lead"] ELSE q, r)
    [] q.mode \in {"lead", "break"} /\ Blank(r) -> [q EXCEPT !.mode = "lead", !.cell = Append(@, r)]
    [] q.mode \in {"lead", "break", "plain"} -> [q EXCEPT !.mode = "plain", !.cell = Append(@, r)]
    [] q.mode = "in" /\ r = QUOTE -> [q EXCEPT !.mode = "close"]
    [] q.mode = "in" -> [q EXCEPT !.cell = Append(@, r)]
    [] q.mode = "close" /\ r = QUOTE -> [q EXCEPT !.mode = "in", !.cell = Append(@, QUOTE)]
    [] q.mode \in {"close", "after"} /\ Blank(r) -> [q EXCEPT !.mode = "after"]
    [] q.mode = "after" /\ r = QUOTE -> [q EXCEPT !.mode = "in"]  \* the parts of a cell are joined
    [] q.mode \in {"close", "after"} -> [q EXCEPT !.mode = "no"]
Open(q) == q.mode = "in"
Readable(q) == q.mode \notin {"in", "no"}
TableOf(q) == DropBlank(Append(q.rows, EndCell(IF q.mode = "break" THEN [q EXCEPT !.mode = "lead"] ELSE q)))
RECURSIVE ReadFrom(_, _, _)
ReadFrom(t, k, q) == IF k > Len(t) THEN q ELSE ReadFrom(t, k + 1, Reads(q, t[k]))
Read(t) == ReadFrom(t, 1, R0)

(* ---- reading, piece by piece (for the model) -------------------------------------- *)
(* end of the quoted part whose opening quote is at k: the closing quote, 0 if none    *)
RECURSIVE CloseOf(_, _)
CloseOf(t, k) == IF k > Len(t) THEN 0
                 ELSE IF t[k] # QUOTE THEN CloseOf(t, k + 1)
                 ELSE IF k < Len(t) /\ t[k + 1] = QUOTE THEN CloseOf(t, k + 2) ELSE k
RECURSIVE Undouble(_)
Undouble(t) == IF t = <<>> THEN <<>>
               ELSE <<t[1]>> \o Undouble(SubSeq(t, IF t[1] = QUOTE THEN 3 ELSE 2, Len(t)))
RECURSIVE SkipBlanks(_, _), PartsAt(_, _, _), PlainEnd(_, _), SkipBreaks(_, _), RowsAt(_, _, _, _)
SkipBlanks(t, k) == IF k <= Len(t) /\ Blank(t[k]) THEN SkipBlanks(t, k + 1) ELSE k
(* quoted parts from k on, at least one: <<next, content>>, next 0 if one is not closed *)
PartsAt(t, k, acc) ==
  LET o == SkipBlanks(t, k) IN
  IF o > Len(t) \/ t[o] # QUOTE THEN <<o, acc>>
  ELSE LET c == CloseOf(t, o + 1) IN
       IF c = 0 THEN <<0, <<>>>> ELSE PartsAt(t, c + 1, acc \o Undouble(SubSeq(t, o + 1, c - 1)))
PlainEnd(t, k) == IF k > Len(t) \/ t[k] = COMMA \/ LineBreak(t[k]) THEN k ELSE PlainEnd(t, k + 1)
SkipBreaks(t, k) == IF k <= Len(t) /\ LineBreak(t[k]) THEN SkipBreaks(t, k + 1) ELSE k
CellAt(t, k) == LET o == SkipBlanks(t, k) IN
                IF o <= Len(t) /\ t[o] = QUOTE THEN PartsAt(t, k, <<>>)
                ELSE <<PlainEnd(t, k), Trimmed(SubSeq(t, k, PlainEnd(t, k) - 1))>>
(* <<"ok" / "open" / "no", rows>> *)
RowsAt(t, k, row, rows) ==
  LET c == CellAt(t, k) e == c[1] now == Append(row, c[2]) IN
  IF e = 0 THEN <<"open", <<>>>>
  ELSE IF e > Len(t) THEN <<"ok", DropBlank(Append(rows, now))>>
  ELSE IF t[e] = COMMA THEN RowsAt(t, e + 1, now, rows)
  ELSE IF LineBreak(t[e]) THEN RowsAt(t, SkipBreaks(t, e), <<>>, Append(rows, now))
  ELSE <<"no", <<>>>>
Pieces(t) == RowsAt(t, 1, <<>>, <<>>)

(* ---- writing: any text that reads back as the table is right; this is one ------------ *)
NeedsQuotes(c) == Trimmed(c) # c \/ \E k \in 1..Len(c) : c[k] \in {QUOTE, COMMA} \/ LineBreak(c[k])
RECURSIVE Doubled(_), WriteRow(_, _), WriteRows(_, _)
Doubled(c) == IF c = <<>> THEN <<>> ELSE (IF c[1] = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<c[1]>>) \o Doubled(Tail(c))
WriteCell(c) == IF NeedsQuotes(c) THEN <<QUOTE>> \o Doubled(c) \o <<QUOTE>> ELSE c
WriteRow(row, k) == IF k > Len(row) THEN <<>>
                    ELSE (IF k = 1 THEN <<>> ELSE <<COMMA>>) \o WriteCell(row[k]) \o WriteRow(row, k + 1)
WriteRows(rows, k) == IF k > Len(rows) THEN <<>>
                      ELSE (IF k = 1 THEN <<>> ELSE <<10>>) \o WriteRow(rows[k], 1) \o WriteRows(rows, k + 1)
Write(rows) == WriteRows(rows, 1)
(* tables with a written form: every row has cells, and more than one empty one *)
Writable(rows) == \A k \in 1..Len(rows) : rows[k] # <<>> /\ rows[k] # << <<>> >>

(* ---- records ----------------------------------------------------------------------- *)
(* a field: [name, tag, kind]; its column is named by the tag, else by the name          *)
ColumnName(f) == IF f.tag = <<>> THEN f.name ELSE f.tag
IndexOf(s, x) == IF \E k \in 1..Len(s) : s[k] = x THEN CHOOSE k \in 1..Len(s) : s[k] = x ELSE 0
(* what a row of the selected columns holds; vals are the written values of the fields   *)
RowOf(fields, vals, cols) ==
  [k \in 1..Len(cols) |->
     LET i == IndexOf([j \in 1..Len(fields) |-> ColumnName(fields[j])], cols[k]) IN
     IF i = 0 THEN <<>> ELSE vals[i]]
(* the column a field is read from, 0 if none: by its column name, else by its own name   *)
(* unless that is the column of another field                                            *)
ColumnOf(fields, i, header) ==
  LET byTag == IndexOf(header, ColumnName(fields[i])) IN
  IF byTag > 0 THEN byTag
  ELSE IF \E j \in 1..Len(fields) : ColumnName(fields[j]) = fields[i].name THEN 0
  ELSE IndexOf(header, fields[i].name)

(* integers in a cell: a sign, digits *)
Digits(t) == t # <<>> /\ \A k \in 1..Len(t) : 48 <= t[k] /\ t[k] <= 57
Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Magnitude(t) == IF Signed(t) THEN Tail(t) ELSE t
RECURSIVE NoLead(_)
NoLead(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoLead(Tail(t)) ELSE t
AtMost(a, b) == \/ Len(a) < Len(b)
                \/ Len(a) = Len(b) /\ (a = b \/ \E k \in 1..Len(a) : a[k] < b[k] /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1))
Top(bits, neg) ==
  CASE bits = "8" -> (IF neg THEN <<49,50,56>> ELSE <<49,50,55>>)
    [] bits = "16" -> <<51,50,55,54, IF neg THEN 56 ELSE 55>>
    [] bits = "32" -> <<50,49,52,55,52,56,51,54,52, IF neg THEN 56 ELSE 55>>
    [] bits = "u8" -> <<50,53,53>>
    [] bits = "u32" -> <<52,50,57,52,57,54,55,50,57,53>>
    [] bits = "64" -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48, IF neg THEN 56 ELSE 55>>
    [] bits = "u16" -> <<54,53,53,51,53>>
    [] bits = "u64" -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
Unsigned == {"u8", "u16", "u32", "u64"}
Whole(t, bits) == /\ Digits(IF bits \in Unsigned THEN t ELSE Magnitude(t))
                  /\ AtMost(NoLead(Magnitude(t)), Top(bits, Signed(t) /\ t[1] = 45))
Canonical(t) == LET m == NoLead(Magnitude(t)) IN
                IF Signed(t) /\ t[1] = 45 /\ m # <<48>> THEN <<45>> \o m ELSE m
WideOf(bits) == IF bits \in Unsigned THEN "u64" ELSE "64"
(* "ok" with the value's text, "err" if it is no number of 64 bits, "any" between *)
CellValue(kind, t) ==
  CASE kind = "str" -> <<"ok", t>>
    [] kind \in {"8", "16", "32", "64"} \union Unsigned ->
         IF Whole(t, kind) THEN <<"ok", Canonical(t)>>
         ELSE IF Whole(t, WideOf(kind)) THEN <<"any", <<>>>> ELSE <<"err", <<>>>>
    [] kind = "float" -> <<"any", <<>>>>
=============================================================================
