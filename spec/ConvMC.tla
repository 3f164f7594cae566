--------------------------------- MODULE ConvMC ---------------------------------
(* Texts grow digit by digit; the value follows, and limb arithmetic agrees with *)
(* machine arithmetic as long as that reaches. *)
EXTENDS Conv, TLC
CONSTANTS MaxLen, Radices
VARIABLES t, radix, v
Init == t = <<>> /\ radix \in Radices /\ v = 0
Next == /\ Len(t) < MaxLen
        /\ \E d \in {0, 1, 7, 9, 11, 35} :
             /\ d < radix
             /\ t' = Append(t, IF d < 10 THEN 48 + d ELSE 87 + d)
             /\ v' = v * radix + d
        /\ UNCHANGED radix
Spec == Init /\ [][Next]_<<t, radix, v>>
Nat2Big(x) == MulAdd(<<>>, 1, x)
Agree ==
  t # <<>> =>
  /\ Int64Text(t, radix).ok /\ Int64Text(t, radix).n = Nat2Big(v)
  /\ Int64Text(<<45>> \o t, radix) = [ok |-> TRUE, neg |-> TRUE, n |-> Nat2Big(v)]
  /\ Uint64Text(<<43>> \o t, radix).n = Nat2Big(v)
  /\ ~Uint64Text(<<45>> \o t, radix).ok /\ ~Int64Text(t \o <<95>>, radix).ok
  /\ Int64Text(<<48>> \o t, radix) = Int64Text(t, radix)
  /\ Minus(Nat2Big(v + 12345), Nat2Big(12345)) = Nat2Big(v)
  /\ Plus(Nat2Big(v), Nat2Big(9999)) = Nat2Big(v + 9999)
  /\ Cmp(Nat2Big(v), Nat2Big(v + 1)) = -1
ASSUME Two63 = FromDigits(DigitVals(<<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>), 10, <<>>)
(* a half is exact, a third is not *)
ASSUME Nearest(<<5>>, -1, <<1>>, -1) /\ ~Nearest(<<5>>, -1, <<3>>, -2)
=============================================================================
