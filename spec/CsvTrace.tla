-------------------------------- MODULE CsvTrace --------------------------------
(* Texts read, tables written and read back, records written and read: recorded calls. *)
EXTENDS Csv, TLC, Json, IOUtils
VARIABLES ses, k
L == INSTANCE Location

(* ---- reading -------------------------------------------------------------------- *)
RECURSIVE LastOpen(_, _, _, _)  \* characters before the last opening quote
LastOpen(t, j, q, best) ==
  IF j > Len(t) THEN best
  ELSE LET n == Reads(q, t[j]) IN LastOpen(t, j + 1, n, IF n.mode = "in" /\ q.mode \notin {"in", "close"} THEN j - 1 ELSE best)
RECURSIVE Width(_, _)
Width(t, j) == IF j = 0 THEN 0 ELSE Len(EncodeRune(t[j])) + Width(t, j - 1)
LocatedIn(c, t) ==
  \E p \in Width(t, LastOpen(t, 1, R0, 0))..Len(c.src) : c.line = L!LineNo(c.src, p) /\ c.col = L!ColNo(c.src, p)
ParseOk(c) ==
  LET t == Runes(c.src) q == Read(t) IN
  IF Readable(q) THEN c.st = "ok" /\ c.rows = TableOf(q)
  ELSE c.st = "err" /\ (Open(q) => LocatedIn(c, t))

(* ---- writing ---------------------------------------------------------------------- *)
ReadsAs(text, rows) == LET q == Read(Runes(text)) IN Readable(q) /\ TableOf(q) = rows
WriteOk(c) == Writable(c.rows) => ReadsAs(c.text, c.rows) /\ c.st = "ok" /\ c.back = c.rows

(* ---- records: fields c.fields, columns c.cols, records c.recs (texts of the values) --- *)
Fields(c) == 1..Len(c.fields)
Zero(f) == IF f.kind = "str" THEN <<>> ELSE <<48>>
Table(c) == << c.cols >> \o [r \in 1..Len(c.recs) |-> RowOf(c.fields, c.recs[r], c.cols)]
FloatColumn(c, j) == \E i \in Fields(c) : c.fields[i].kind = "float" /\ ColumnName(c.fields[i]) = c.cols[j]
(* floating-point cells hold some text: what it is worth shows when it is read back *)
SameTable(c, rows) ==
  /\ Len(rows) = Len(Table(c))
  /\ \A r \in 1..Len(rows) :
       /\ Len(rows[r]) = Len(c.cols)
       /\ \A j \in 1..Len(c.cols) : rows[r][j] = Table(c)[r][j] \/ (r > 1 /\ FloatColumn(c, j) /\ rows[r][j] # <<>>)
(* the columns are those of fields, or foreign ones (not the own name of a field with a tag) *)
Described(c) == Writable(Table(c)) /\ \A i \in Fields(c) :
                  ColumnOf(c.fields, i, c.cols) > 0 => IndexOf(c.cols, ColumnName(c.fields[i])) > 0
MarshalOk(c) ==
  Described(c) =>
  /\ c.mst = "ok"
  /\ LET q == Read(Runes(c.text)) IN Readable(q) /\ SameTable(c, TableOf(q))
  /\ c.ust = "ok" /\ Len(c.back) = Len(c.recs)
  /\ \A r \in 1..Len(c.recs) : \A i \in Fields(c) :
       c.back[r][i] = IF IndexOf(c.cols, ColumnName(c.fields[i])) > 0 THEN c.recs[r][i] ELSE Zero(c.fields[i])

UnmarshalOk(c) ==
  LET q == Read(Runes(c.src)) IN
  IF ~Readable(q) THEN c.ust = "err"
  ELSE LET rows == TableOf(q) IN
  IF Len(rows) < 2 THEN c.ust = "ok" /\ (c.pre = 0 => c.back = <<>>)
  ELSE LET col(i) == ColumnOf(c.fields, i, rows[1])
           short == \E r \in 2..Len(rows) : \E i \in Fields(c) : col(i) > Len(rows[r])
           vals == [r \in 2..Len(rows) |-> [i \in Fields(c) |->
                      IF col(i) = 0 THEN <<"ok", Zero(c.fields[i])>> ELSE CellValue(c.fields[i].kind, rows[r][col(i)])]]
       IN IF short THEN c.ust = "err"
          ELSE IF \E r \in 2..Len(rows) : \E i \in Fields(c) : vals[r][i][1] = "err" THEN c.ust = "err"
          ELSE /\ (c.ust = "err" => \E r \in 2..Len(rows) : \E i \in Fields(c) : vals[r][i][1] = "any")
               /\ c.ust = "ok" =>
                    /\ Len(c.back) = Len(rows) - 1
                    /\ \A r \in 2..Len(rows) : \A i \in Fields(c) :
                         vals[r][i][1] = "ok" => c.back[r - 1][i] = vals[r][i][2]

Ok(c) == CASE c.op = "parse" -> ParseOk(c)
           [] c.op = "write" -> WriteOk(c)
           [] c.op = "marshal" -> MarshalOk(c)
           [] c.op = "unmarshal" -> UnmarshalOk(c)
           [] c.op = "unfit" -> c.st = "err"  \* not a slice of structs, not a pointer to one
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
