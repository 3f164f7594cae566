-------------------------------- MODULE DateTimeMC --------------------------------
(* Texts built from fields: the scan takes exactly the text built, normalises it, and
   the instant is that of the fields. *)
EXTENDS DateTime, TLC
CONSTANTS Years, Hours, Zones
VARIABLES f, whole

Dg(k, w) == [j \in 1..w |-> 48 + ((k \div (CASE w - j = 0 -> 1 [] w - j = 1 -> 10 [] w - j = 2 -> 100 [] OTHER -> 1000)) % 10)]
Frac(k) == [j \in 1..k |-> 48 + j]
RECURSIVE FracNum(_, _)
FracNum(k, w) == IF w = 0 THEN 0 ELSE 10 * FracNum(k, w - 1) + (IF w <= k THEN w ELSE 0)

Dates == [y : Years, m : {0, 2, 4, 12, 13}, d : {0, 1, 29, 30, 31, 32}]
Times == [h : Hours, mi : {0, 59}, s : {-1, 0, 59, 60}, fr : {0, 1, 9}, z : Zones]
DateText(x) == Dg(x.y, 4) \o <<MINUS>> \o Dg(x.m, 2) \o <<MINUS>> \o Dg(x.d, 2)
TimeText(x) == Dg(x.h, 2) \o <<COLON>> \o Dg(x.mi, 2) \o
  (IF x.s < 0 THEN <<>> ELSE <<COLON>> \o Dg(x.s, 2) \o (IF x.fr = 0 THEN <<>> ELSE <<46>> \o Frac(x.fr)))
(* a zone: minutes, 10000 added if negative; 9999 for "Z" *)
Abs(k) == k % 10000
Minutes(k) == IF k = 9999 THEN 0 ELSE IF k >= 10000 THEN -Abs(k) ELSE k
ZoneText(x) == IF x.z = 9999 THEN <<90>>
  ELSE <<IF x.z >= 10000 THEN MINUS ELSE 43>> \o Dg(Abs(x.z) \div 60, 2) \o <<COLON>> \o Dg(Abs(x.z) % 60, 2)
Text1(x) == DateText(x) \o <<84>> \o TimeText(x) \o ZoneText(x)

Init == f \in Dates /\ whole = FALSE
Next == /\ ~whole /\ whole' = TRUE
        /\ \E t \in Times : (t.s < 0 => t.fr = 0) /\ f' = f @@ t
Spec == Init /\ [][Next]_<<f, whole>>

Whole == whole =>
        /\ DateTimeScan(Text1(f), 0).e = Len(Text1(f))
        /\ DateScan(DateText(f) \o <<84>>, 0).e = 10 /\ TimeScan(TimeText(f), 0).e = Len(TimeText(f))
Cut == whole => \A i \in 0..(Len(Text1(f)) - 1) : DateTimeScan(SubSeq(Text1(f), 1, i), 0).e = -1
Again == whole => LET t == DateTimeScan(Text1(f), 0).t IN DateTimeScan(t, 0).t = t /\ Len(t) = 35
CalendarOk == f.m \in 1..12 /\ f.d \in 1..DaysIn(f.y, IF f.m = 0 THEN 1 ELSE f.m)
ClockOk == f.h < 24 /\ f.s < 60
ZoneOk == f.z = 9999 \/ Abs(f.z) < 1440
Named == whole =>
  LET r == Instant("datetime", DateTimeScan(Text1(f), 0).t)
      secs == f.h * 3600 + f.mi * 60 + (IF f.s < 0 THEN 0 ELSE f.s) - Minutes(f.z) * 60
  IN IF CalendarOk /\ ClockOk /\ ZoneOk
     THEN /\ r.v = "yes" /\ r.s \in 0..86399 /\ r.n = FracNum(f.fr, 9)
          /\ (r.d - Days(f.y, f.m, f.d)) * 86400 + r.s = secs
     ELSE r.v # "yes"
=============================================================================
