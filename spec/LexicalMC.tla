------------------------------- MODULE LexicalMC -------------------------------
(* The number automata read all short texts; they accept exactly the described   *)
(* forms, and never get stuck where a longer text would still be accepted.        *)
EXTENDS Lexical, TLC
CONSTANTS Form, MaxLen
VARIABLES t, q
Letters == IF Form \in {"BinaryNumberStr", "OctalNumberStr", "HexNumberStr"}
           THEN {48, 49, 55, 57, 65, 102, 103, US} ELSE {48, 49, US, DOT, 101, 43, 45, 120}
Init == t = <<>> /\ q = "s"
Next == Len(t) < MaxLen /\ \E b \in Letters :
          /\ t' = Append(t, b)
          /\ q' = IF q = "-" THEN "-" ELSE Delta(Form, q, b)
Spec == Init /\ [][Next]_<<t, q>>
Accepts == Accepting(Form, q) <=> IsForm(Form, t)
LongestOne == LET ps == Prefixes(Form, t) IN
              NumberEnd(Form, t, 0) = IF ps = {} THEN -1 ELSE CHOOSE n \in ps : \A m \in ps : m <= n
=============================================================================
