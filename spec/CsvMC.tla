---------------------------------- MODULE CsvMC ----------------------------------
(* Texts are read character by character and piece by piece with the same outcome;    *)
(* tables are written and read back.                                                  *)
EXTENDS Csv, TLC
CONSTANTS MaxText, MaxTable
VARIABLES what, t, q, table
Letters == {97, 32, QUOTE, COMMA, 10, 13}
Cells == {97, 32, QUOTE, COMMA, 10, 160}
Init == \/ what = "text" /\ t = <<>> /\ q = R0 /\ table = <<>>
        \/ what = "table" /\ t = <<>> /\ q = R0 /\ table = <<>>
LastRow == table[Len(table)]
RECURSIVE Size(_), Weight(_, _)
Weight(row, k) == IF k > Len(row) THEN 0 ELSE 1 + Len(row[k]) + Weight(row, k + 1)
Size(rows) == IF rows = <<>> THEN 0 ELSE 1 + Weight(Head(rows), 1) + Size(Tail(rows))
Next ==
  \/ what = "text" /\ Len(t) < MaxText /\ UNCHANGED <<what, table>>
     /\ \E r \in Letters : t' = Append(t, r) /\ q' = Reads(q, r)
  \/ what = "table" /\ Size(table) < MaxTable /\ UNCHANGED <<what, t, q>>
     /\ \/ table' = Append(table, << <<>> >>)
        \/ table # <<>> /\ table' = [table EXCEPT ![Len(table)] = Append(@, <<>>)]
        \/ table # <<>> /\ \E r \in Cells :
             table' = [table EXCEPT ![Len(table)] = [@ EXCEPT ![Len(@)] = Append(@, r)]]
Spec == Init /\ [][Next]_<<what, t, q, table>>
SameReading == what = "text" =>
  LET p == Pieces(t) IN
  CASE q.mode = "in" -> p[1] = "open"
    [] q.mode = "no" -> p[1] = "no"
    [] OTHER -> p = <<"ok", TableOf(q)>>
RoundTrip == what = "table" /\ Writable(table) => LET r == Read(Write(table)) IN Readable(r) /\ TableOf(r) = table
NeedlessQuotes == what = "table" /\ table # <<>> =>  \* a cell in quotes reads the same
  LET r == Read(<<QUOTE>> \o Doubled(table[1][1]) \o <<QUOTE>>) IN
  table[1][1] # <<>> => Readable(r) /\ TableOf(r) = << << table[1][1] >> >>
=============================================================================
