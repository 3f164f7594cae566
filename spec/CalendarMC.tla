-------------------------------- MODULE CalendarMC --------------------------------
(* The day number of the specification counts days: walking the calendar day by day. *)
EXTENDS DateTime, TLC
CONSTANTS First, Last
VARIABLES y, m, d, n
Init == \E s \in {First} : y = s /\ m = 1 /\ d = 1 /\ n = Days(s, 1, 1)
Next == /\ y <= Last
        /\ n' = n + 1
        /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<y, m, d, n>>
Counts == Days(y, m, d) = n /\ (<<y, m, d>> = <<1970, 1, 1>> => n = 0)
ASSUME Days(1970, 1, 1) = 0 /\ Days(2000, 2, 29) = 11016 /\ Days(1969, 12, 31) = -1
=============================================================================
