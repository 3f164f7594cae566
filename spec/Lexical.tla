-------------------------------- MODULE Lexical --------------------------------
(***************************************************************************)
(* Number, identifier and word-boundary texts.                              *)
(*                                                                          *)
(* Numbers: an automaton per form; it reads bytes while it can, and the      *)
(* accepted text is the longest prefix that ends in an accepting state.      *)
(* Digit separators "_" may follow a digit (and the point, and one another)  *)
(* and are dropped from the value.  A "0" is followed by no other digit.     *)
(***************************************************************************)
EXTENDS Text, FiniteSets

Digit(b) == 48 <= b /\ b <= 57
US == 95  DOT == 46  ZERO == 48
Sign(b) == b \in {43, 45}
Exp(b) == b \in {69, 101}

Radix(form) == CASE form = "BinaryNumberStr" -> BinRanges
                 [] form = "OctalNumberStr" -> OctRanges
                 [] form = "HexNumberStr" -> HexRanges

(* states: s start, g after the sign, z "0", d digits, f point or fraction after digits, *)
(* p point without digits, e exponent sign or letter, x exponent digits, - stuck *)
Delta(form, q, b) ==
  IF form \in {"BinaryNumberStr", "OctalNumberStr", "HexNumberStr"}
  THEN CASE q \in {"s", "d"} /\ InRanges(b, Radix(form)) -> "d"
         [] q = "d" /\ b = US -> "d"
         [] OTHER -> "-"
  ELSE
  LET real == form # "IntegerNumberStr" IN
  CASE q = "s" /\ Sign(b) -> "g"
    [] q \in {"s", "g"} /\ b = ZERO -> "z"
    [] q \in {"s", "g"} /\ Digit(b) -> "d"
    [] q = "z" /\ b = US -> "z"
    [] q = "d" /\ (Digit(b) \/ b = US) -> "d"
    [] real /\ q \in {"s", "g"} /\ b = DOT -> "p"
    [] real /\ q \in {"z", "d"} /\ b = DOT -> "f"
    [] real /\ q = "p" /\ b = US -> "p"
    [] real /\ q \in {"p", "f"} /\ Digit(b) -> "f"
    [] real /\ q = "f" /\ b = US -> "f"
    [] real /\ q \in {"z", "d", "f"} /\ Exp(b) -> "e"
    [] real /\ q = "e" /\ Sign(b) -> "h"
    [] real /\ q \in {"e", "h", "x"} /\ Digit(b) -> "x"
    [] real /\ q = "x" /\ b = US -> "x"
    [] OTHER -> "-"

Accepting(form, q) ==
  IF form = "FloatNumberStr" THEN q \in {"f", "x"} ELSE q \in {"z", "d", "f", "x"}

(* end of the longest accepted text from offset p, -1 if there is none *)
RECURSIVE Longest(_, _, _, _, _)
Longest(form, src, i, q, best) ==
  LET now == IF Accepting(form, q) THEN i ELSE best IN
  IF i >= Len(src) \/ Delta(form, q, src[i + 1]) = "-" THEN now
  ELSE Longest(form, src, i + 1, Delta(form, q, src[i + 1]), now)
NumberEnd(form, src, p) == Longest(form, src, p, "s", -1)

NoSeparators(t) == SelectSeq(t, LAMBDA b : b # US)

(* ---- the same forms by what they are made of (for the model) --------------------- *)
Digs(t) == t # <<>> /\ Digit(t[1]) /\ \A i \in 1..Len(t) : Digit(t[i]) \/ t[i] = US
IntPart(t) == \/ Digs(t) /\ t[1] # ZERO
              \/ t # <<>> /\ t[1] = ZERO /\ \A i \in 2..Len(t) : t[i] = US
Fraction(t) == \A i \in 1..Len(t) : Digit(t[i]) \/ t[i] = US          \* after digits
BareFraction(t) == Fraction(t) /\ \E i \in 1..Len(t) : Digit(t[i])    \* without digits before
Exponent(t) == /\ Len(t) >= 2 /\ Exp(t[1])
               /\ Digs(SubSeq(t, IF Sign(t[2]) THEN 3 ELSE 2, Len(t)))
Mantissa(t) ==
  \E i \in 1..Len(t) : /\ t[i] = DOT
                       /\ \/ IntPart(SubSeq(t, 1, i - 1)) /\ Fraction(SubSeq(t, i + 1, Len(t)))
                          \/ i = 1 /\ BareFraction(SubSeq(t, 2, Len(t)))
Body(t) == IF t # <<>> /\ Sign(t[1]) THEN Tail(t) ELSE t
RECURSIVE IsForm(_, _)
IsForm(form, t) ==
  CASE form \in {"BinaryNumberStr", "OctalNumberStr", "HexNumberStr"} ->
         /\ t # <<>> /\ InRanges(t[1], Radix(form))
         /\ \A i \in 1..Len(t) : InRanges(t[i], Radix(form)) \/ t[i] = US
    [] form = "IntegerNumberStr" -> IntPart(Body(t))
    [] form = "FloatNumberStr" ->
         LET b == Body(t) IN
         \/ Mantissa(b)
         \/ \E i \in 1..(Len(b) - 1) :
              /\ Mantissa(SubSeq(b, 1, i)) \/ IntPart(SubSeq(b, 1, i))
              /\ Exponent(SubSeq(b, i + 1, Len(b)))
    [] form = "NumericStr" -> IsForm("FloatNumberStr", t) \/ IntPart(Body(t))
Prefixes(form, t) == { n \in 0..Len(t) : IsForm(form, SubSeq(t, 1, n)) }

(* ---- identifiers and words ------------------------------------------------------ *)
(* tab: properties of the non-ASCII and ASCII characters of the text, a sequence of    *)
(* <<rune, set of Unicode categories and properties>>                                 *)
Props(tab, r) == LET k == CHOOSE k \in 1..Len(tab) : tab[k][1] = r IN tab[k][2]
HasAny(ps, names) == \E i \in 1..Len(ps) : ps[i] \in names
NotPattern(ps) == ~HasAny(ps, {"Pattern_Syntax", "Pattern_White_Space"})
IdStart(r, ps) ==
  \/ r \in {36, US}
  \/ HasAny(ps, {"L", "Nl", "Other_ID_Start"}) /\ NotPattern(ps)
IdContinue(r, ps) ==
  \/ r \in {36, US, 8204, 8205}
  \/ /\ HasAny(ps, {"L", "Nl", "Other_ID_Start", "Mn", "Mc", "Nd", "Pc", "Other_ID_Continue"})
     /\ NotPattern(ps)
UnicodeWord(r, ps) == IdContinue(r, ps)
AsciiStart(r) == InRanges(r, AlphaRanges) \/ r \in {36, US}

IdOk(form, r, first, tab) ==
  IF form = "ascii" THEN IF first THEN AsciiStart(r) ELSE IsWord(r)
  ELSE IF first THEN IdStart(r, Props(tab, r)) ELSE IdContinue(r, Props(tab, r))
RECURSIVE IdentEnd(_, _, _, _, _)
IdentEnd(form, src, i, first, tab) ==
  LET d == DecodeRune(src, i) IN
  IF d[2] = 0 \/ ~IdOk(form, d[1], first, tab) THEN i
  ELSE IdentEnd(form, src, i + d[2], FALSE, tab)
=============================================================================
