-------------------------------- MODULE FormulaMC --------------------------------
(* All token sequences up to MaxLen: the machine with its two stacks accepts what   *)
(* the recursive descent accepts, and gives the same value and postfix form.         *)
EXTENDS Formula, TLC
CONSTANTS MaxLen, Numbers
VARIABLES text, q
SPACE == 32
Tokens == {<<"n", n>> : n \in Numbers} \cup {<<"o", b>> : b \in {PLUS, MINUS, TIMES, DIV, OPEN, CLOSE}}
Init == text = <<>> /\ q = Start0
Written(tk) == IF tk[1] = "n" THEN <<48 + tk[2], SPACE>> ELSE <<tk[2], SPACE>>  \* numbers of one digit
(* what cannot become an expression any more is not extended *)
Next == /\ Len(text) < 2 * MaxLen /\ q.ok
        /\ \E tk \in Tokens : text' = text \o Written(tk) /\ q' = Token(q, tk)
Spec == Init /\ [][Next]_<<text, q>>

End == Finish(q)
Tree == TreeOf(text)
SameTexts == End.ok <=> Tree[1] = 1
SameValue == Tree[1] = 1 => (IF End.zero THEN Value(Tree[2])[1] = 0 ELSE Value(Tree[2]) = <<1, End.vals[1]>>)
(* limb by limb it is the same value *)
RECURSIVE ToInt(_)
ToInt(m) == IF m = <<>> THEN 0 ELSE m[1] + LimbBase * ToInt(Tail(m))
SameBig == Tree[1] = 1 =>
  LET v == Value(Tree[2]) b == BigValue(Tree[2]) IN
  b[1] = v[1] /\ (v[1] = 1 => v[2] = IF b[2] = 1 THEN 0 - ToInt(b[3]) ELSE ToInt(b[3]))
ASSUME \A a \in {0, 1, 7, 9999, 10000, 10001, 123456, 99999999}, b \in {1, 3, 9999, 10000, 45678, 99999999} :
  LET A == FromDigits(<<a>>, 10, <<>>) B == FromDigits(<<b>>, 10, <<>>) d == Quotient(A, B) IN
  ToInt(d) = a \div b /\ Plus(Times(d, B), DivFrom(A, B, Len(A), <<>>)[2]) = A
(* postfix without folding the signs into the literals *)
RECURSIVE Raw(_)
Raw(t) == CASE t[1] = "lit" -> << SmallOf(t[2], 0) >>
            [] t[1] = "neg" -> Append(Raw(t[2]), NEG)
            [] OTHER -> Raw(t[3]) \o Raw(t[4]) \o << t[2] >>
SamePostfix == Tree[1] = 1 => End.out = Raw(Tree[2])
(* whitespace does not matter; neither does a "+" before a literal that is wanted *)
Dense == SelectSeq(text, LAMBDA b : b # SPACE)
SpacesFree == Tree[1] = 1 => TreeOf(Dense) = Tree
(* one operand per literal *)
FoldedOnce == Tree[1] = 1 =>
  Len(SelectSeq(Postfix(Tree[2]), LAMBDA x : x[1] = "num")) = Len(SelectSeq(text, Digit))
=============================================================================
