-------------------------------- MODULE DateTime --------------------------------
(***************************************************************************)
(* ISO 8601 dates, times and date-times: which texts they are, the           *)
(* normalised text, and the instant it names.                                *)
(* A scan is [e |-> end offset (-1: no match), t |-> normalised text].        *)
(***************************************************************************)
EXTENDS Text

NoScan == [e |-> -1, t |-> <<>>]
D9 == <<48, 57>>  D1 == <<48, 49>>  D2 == <<48, 50>>  D3 == <<48, 51>>
D5 == <<48, 53>>  D6 == <<48, 54>>
One(b) == <<b, b>>
MINUS == 45  COLON == 58
MonthDay == << One(MINUS), D1, D9, One(MINUS), D3, D9 >>
HourMin == << D2, D9, One(COLON), D5, D9 >>
Second == << One(COLON), D6, D9 >>
Offset == << <<43, 45>>, D9, D9, One(COLON), D5, D9 >>   \* "+" "," "-": see IsOffset

Fits(src, i, pat) ==
  /\ i + Len(pat) <= Len(src)
  /\ \A j \in 1..Len(pat) : pat[j][1] <= src[i + j] /\ src[i + j] <= pat[j][2]
Part(src, i, n) == SubSeq(src, i + 1, i + n)
IsDigit(src, i) == Fits(src, i, <<D9>>)
RECURSIVE DigitRun(_, _, _)
DigitRun(src, i, most) == IF most > 0 /\ IsDigit(src, i) THEN 1 + DigitRun(src, i + 1, most - 1) ELSE 0
Zeros(n) == [j \in 1..n |-> 48]

DateScan(src, p) ==
  LET q == IF Fits(src, p, <<One(MINUS)>>) THEN p + 1 ELSE p
      n == DigitRun(src, q, Len(src))
  IN IF n >= 4 /\ Fits(src, q + n, MonthDay)
     THEN [e |-> q + n + 6, t |-> Part(src, p, q + n + 6 - p)] ELSE NoScan

NoSecond == << COLON, 48, 48, 46 >> \o Zeros(9)
TimeScan(src, p) ==
  IF ~Fits(src, p, HourMin) THEN NoScan
  ELSE LET hm == Part(src, p, 5) IN
       IF ~Fits(src, p + 5, Second) THEN [e |-> p + 5, t |-> hm \o NoSecond]
       ELSE LET hms == hm \o Part(src, p + 5, 3)
                n == IF Fits(src, p + 8, <<One(46)>>) THEN DigitRun(src, p + 9, 9) ELSE 0
            IN IF n = 0 THEN [e |-> p + 8, t |-> hms \o <<46>> \o Zeros(9)]
               ELSE [e |-> p + 9 + n, t |-> hms \o <<46>> \o Part(src, p + 9, n) \o Zeros(9 - n)]

IsOffset(src, i) == Fits(src, i, Offset) /\ src[i + 1] # 44
ZoneScan(src, p) ==
  IF Fits(src, p, <<One(90)>>) THEN [e |-> p + 1, t |-> <<43, 48, 48, COLON, 48, 48>>]
  ELSE IF IsOffset(src, p) THEN [e |-> p + 6, t |-> Part(src, p, 6)] ELSE NoScan

DateTimeScan(src, p) ==
  LET d == DateScan(src, p) IN
  IF d.e < 0 \/ ~Fits(src, d.e, <<One(84)>>) THEN NoScan
  ELSE LET t == TimeScan(src, d.e + 1) IN
       IF t.e < 0 THEN NoScan
       ELSE LET z == ZoneScan(src, t.e) IN
            IF z.e < 0 THEN NoScan ELSE [e |-> z.e, t |-> d.t \o <<84>> \o t.t \o z.t]

Scan(form, src, p) == CASE form = "date" -> DateScan(src, p) [] form = "time" -> TimeScan(src, p)
                        [] form = "datetime" -> DateTimeScan(src, p)

(* ---- what a normalised text names -------------------------------------------- *)
RECURSIVE Num(_)
Num(t) == IF t = <<>> THEN 0 ELSE 10 * Num(SubSeq(t, 1, Len(t) - 1)) + t[Len(t)] - 48

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31

(* days from 1970-01-01, for the years from -9999 *)
Days(y, m, d) ==
  LET yy == y + 10000 - (IF m <= 2 THEN 1 ELSE 0)
      mm == (m + 9) % 12
  IN 365 * yy + yy \div 4 - yy \div 100 + yy \div 400 + (153 * mm + 2) \div 5 + d - 1 - 4371893

Bad == [v |-> "no", d |-> 0, s |-> 0, n |-> 0]
Date(t) == \* t is a date text: sign, year, month, day
  LET l == Len(t)
      year == SubSeq(t, 1, l - 6)
      mo == Num(SubSeq(t, l - 4, l - 3))
      da == Num(SubSeq(t, l - 1, l))
      neg == year[1] = MINUS
      digits == IF neg THEN Tail(year) ELSE year
      known == Len(digits) <= IF neg THEN 4 ELSE 6
      y == IF known THEN IF neg THEN -Num(digits) ELSE Num(digits) ELSE 0
      most == IF mo = 2 /\ ~known THEN 29 ELSE IF mo \in 1..12 THEN DaysIn(y, mo) ELSE 0
  IN IF da < 1 \/ da > most THEN Bad
     ELSE [v |-> IF ~known THEN "free" ELSE IF neg \/ Len(digits) > 4 THEN "may" ELSE "yes",
           d |-> Days(y, mo, da), s |-> 0, n |-> 0]
Clock(t) == \* hh:mm:ss.fffffffff
  LET h == Num(SubSeq(t, 1, 2))  s == Num(SubSeq(t, 7, 8)) IN
  IF h > 23 \/ s > 59 THEN Bad
  ELSE [v |-> "yes", d |-> 0, s |-> h * 3600 + Num(SubSeq(t, 4, 5)) * 60 + s, n |-> Num(SubSeq(t, 10, 18))]
Zone(t) == \* +hh:mm; 24 hours: some take it as valid
  LET h == Num(SubSeq(t, 2, 3)) IN
  [v |-> IF h > 24 THEN "no" ELSE IF h = 24 THEN "may" ELSE "yes",
   s |-> (IF t[1] = MINUS THEN -1 ELSE 1) * (h * 3600 + Num(SubSeq(t, 5, 6)) * 60)]

Worst(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "free" \in {a, b} THEN "free"
               ELSE IF "may" \in {a, b} THEN "may" ELSE "yes"
(* v: "yes" must convert to the instant, "may" to it or fail, "no" must fail; "free":
   a year too long to say *)
Instant(form, t) ==
  CASE form = "date" -> Date(t)
    [] form = "time" -> Clock(t)
    [] form = "datetime" ->
         LET l == Len(t)
             dt == Date(SubSeq(t, 1, l - 25))
             ck == Clock(SubSeq(t, l - 23, l - 6))
             zn == Zone(SubSeq(t, l - 5, l))
             v == Worst(dt.v, Worst(ck.v, zn.v))
             s == ck.s - zn.s
             sd == (s + 172800) \div 86400 - 2
         IN IF v \in {"no", "free"} THEN [Bad EXCEPT !.v = v]
            ELSE [v |-> v, d |-> dt.d + sd, s |-> s - sd * 86400, n |-> ck.n]
=============================================================================
