-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Source texts are sequences of bytes; offsets are 0-based (offset p names *)
(* the byte src[p+1]).  Characters are what a UTF-8 decoder with            *)
(* replacement yields: an invalid byte is one U+FFFD of length 1.           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

RuneError == 65533

Cont(b) == 128 <= b /\ b <= 191

(* <<rune, length>>; length 0 at (or after) the end of the text *)
DecodeRune(src, p) ==
  LET n == Len(src) - p IN
  IF n <= 0 THEN <<RuneError, 0>> ELSE
  LET b0 == src[p+1] IN
  IF b0 < 128 THEN <<b0, 1>>
  ELSE IF b0 < 194 \/ b0 > 244 THEN <<RuneError, 1>>
  ELSE IF n < 2 THEN <<RuneError, 1>>
  ELSE
  LET b1 == src[p+2]
      lo == IF b0 = 224 THEN 160 ELSE IF b0 = 240 THEN 144 ELSE 128
      hi == IF b0 = 237 THEN 159 ELSE IF b0 = 244 THEN 143 ELSE 191
  IN IF b1 < lo \/ b1 > hi THEN <<RuneError, 1>>
     ELSE IF b0 < 224 THEN <<(b0 - 192) * 64 + (b1 - 128), 2>>
     ELSE IF n < 3 \/ ~Cont(src[p+3]) THEN <<RuneError, 1>>
     ELSE IF b0 < 240
       THEN <<(b0 - 224) * 4096 + (b1 - 128) * 64 + (src[p+3] - 128), 3>>
     ELSE IF n < 4 \/ ~Cont(src[p+4]) THEN <<RuneError, 1>>
     ELSE <<(b0 - 240) * 262144 + (b1 - 128) * 4096
            + (src[p+3] - 128) * 64 + (src[p+4] - 128), 4>>

(* UTF-8 bytes of a code point; what is no code point becomes U+FFFD *)
EncodeRune(r) ==
  IF r < 0 \/ r > 1114111 \/ (55296 <= r /\ r <= 57343) THEN <<239, 191, 189>>
  ELSE IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64),
         128 + ((r \div 64) % 64), 128 + (r % 64)>>

(* all characters of a text *)
RECURSIVE RunesFrom(_, _)
RunesFrom(src, p) ==
  IF p >= Len(src) THEN <<>>
  ELSE LET d == DecodeRune(src, p) IN <<d[1]>> \o RunesFrom(src, p + d[2])
Runes(src) == RunesFrom(src, 0)

InRanges(r, rs) == \E k \in 1..Len(rs) : rs[k][1] <= r /\ r <= rs[k][2]

(* documented character classes *)
WSRanges     == << <<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>> >>
WSNLRanges   == << <<9, 9>>, <<32, 32>>, <<160, 160>> >>
LBRanges     == << <<10, 13>>, <<133, 133>> >>
AlphaRanges  == << <<65, 90>>, <<97, 122>> >>
NumRanges    == << <<48, 57>> >>
AlnumRanges  == << <<48, 57>>, <<65, 90>>, <<97, 122>> >>
BinRanges    == << <<48, 49>> >>
OctRanges    == << <<48, 55>> >>
HexRanges    == << <<48, 57>>, <<65, 70>>, <<97, 102>> >>
WordRanges   == << <<36, 36>>, <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>> >>

ClassRanges(name) ==
  CASE name = "ws"    -> WSRanges
    [] name = "wsnl"  -> WSNLRanges
    [] name = "lbk"   -> LBRanges
    [] name = "alpha" -> AlphaRanges
    [] name = "num"   -> NumRanges
    [] name = "alnum" -> AlnumRanges
    [] name = "bin"   -> BinRanges
    [] name = "oct"   -> OctRanges
    [] name = "hex"   -> HexRanges

IsWord(r) == InRanges(r, WordRanges)

(* the text s stands in src at offset p *)
HasAt(src, p, s) ==
  /\ p + Len(s) <= Len(src)
  /\ \A k \in 1..Len(s) : src[p+k] = s[k]

AsciiFold(r) == IF 97 <= r /\ r <= 122 THEN r - 32 ELSE r

(* character before offset p of a valid text (p at a character boundary), <<rune, length>> *)
PrevRune(src, p) ==
  IF p = 0 THEN <<RuneError, 0>>
  ELSE LET L == CHOOSE k \in 1..4 :
                  /\ k <= p
                  /\ ~Cont(src[p-k+1])
                  /\ DecodeRune(src, p - k)[2] = k
       IN DecodeRune(src, p - L)
=============================================================================
