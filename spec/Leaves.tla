------------------------------- MODULE Leaves -------------------------------
(***************************************************************************)
(* The recognisers without sub-parsers: what they match at offset p of a    *)
(* source, which AST they append and how far they advance.                  *)
(* LeafStep(nd, src, p, fold) = [st |-> "M"/"U"/"E", n |-> advance,         *)
(*    as |-> appended ASTs, m |-> error message].                           *)
(***************************************************************************)
EXTENDS Text, Asts

LM(n, as) == [st |-> "M", n |-> n, as |-> as, m |-> ""]
LU == [st |-> "U", n |-> 0, as |-> <<>>, m |-> ""]
LE(m) == [st |-> "E", n |-> 0, as |-> <<>>, m |-> m]

CharTok(cn, src, p, ok(_)) ==
  LET d == DecodeRune(src, p) IN
  IF d[2] > 0 /\ ok(d[1])
  THEN LM(d[2], << StrAst(cn, EncodeRune(d[1]), p, d[2]) >>) ELSE LU

TextTok(cn, src, p, s) ==
  LM(Len(s), << StrAst(cn, SubSeq(src, p + 1, p + Len(s)), p, Len(s)) >>)

(* simple case folding: ASCII by rule, others by the orbit table of the session *)
Canon(fold, r) ==
  IF r < 128 THEN
    (* the ASCII letters whose orbit contains a non-ASCII character are in the table, too *)
    AsciiFold(r)
  ELSE IF \E k \in 1..Len(fold) : fold[k][1] = r
       THEN (LET k == CHOOSE k \in 1..Len(fold) : fold[k][1] = r IN AsciiFold(fold[k][2]))
       ELSE r
FoldEq(fold, a, b) ==
  LET ra == Runes(a) rb == Runes(b) IN
  /\ Len(ra) = Len(rb)
  /\ \A k \in 1..Len(ra) : Canon(fold, ra[k]) = Canon(fold, rb[k])

ClassName(op) ==
  CASE op = "ws" -> "Whitespace" [] op = "wsnl" -> "WhitespaceNoLineBreak"
    [] op = "lbk" -> "LineBreak" [] op = "alpha" -> "Alpha" [] op = "num" -> "Number"
    [] op = "alnum" -> "Alnum" [] op = "bin" -> "BinNumber" [] op = "oct" -> "OctNumber"
    [] op = "hex" -> "HexNumber"

Boundary(src, p, word(_)) ==
  LET nx == DecodeRune(src, p)
      pr == PrevRune(src, p)
      wn == nx[2] > 0 /\ word(nx[1])
      wp == pr[2] > 0 /\ word(pr[1])
  IN IF wn # wp THEN LM(0, <<>>) ELSE LU

ObjTok(cn, v, p) == << MkAst(cn, "Any", "obj", <<v>>, <<>>, p, 1, 0) >>

(* predicates handed to the object recogniser *)
ObjPred(pr, v) ==
  CASE pr.k = "ge" -> v >= pr.n
    [] pr.k = "mod" -> v % pr.d = pr.n
    [] pr.k = "all" -> TRUE
    [] pr.k = "none" -> FALSE

OneObj(cn, src, p, ok(_)) ==
  IF p < Len(src) /\ ok(src[p+1]) THEN LM(1, ObjTok(cn, src[p+1], p)) ELSE LU

OneAst(src, p, ok(_), cn) ==
  IF p < Len(src) /\ ok(src[p+1])
  THEN LM(1, << MkAst(cn, "Any", "ast", <<>>, <<src[p+1]>>, p, 1, 0) >>) ELSE LU

In(vs, v) == \E k \in 1..Len(vs) : vs[k] = v

LeafStep(nd, src, p, fold) ==
  CASE nd.op = "any"   -> CharTok("Any", src, p, LAMBDA r : TRUE)
    [] nd.op = "end"   -> IF p = Len(src) THEN LM(0, <<>>) ELSE LU
    [] nd.op = "start" -> IF p = 0 THEN LM(0, <<>>) ELSE LU
    [] nd.op = "seq"   -> IF HasAt(src, p, nd.s) THEN TextTok("Seq", src, p, nd.s) ELSE LU
    [] nd.op = "seqi"  -> IF /\ p + Len(nd.s) <= Len(src)
                             /\ FoldEq(fold, SubSeq(src, p + 1, p + Len(nd.s)), nd.s)
                          THEN TextTok("SeqI", src, p, nd.s) ELSE LU
    [] nd.op = "range" -> CharTok("CharRange", src, p, LAMBDA r : InRanges(r, nd.rs))
    [] nd.op = "rangeN" -> CharTok("CharRangeN", src, p, LAMBDA r : ~InRanges(r, nd.rs))
    [] nd.op = "classFn" -> CharTok("CharClassFn", src, p, LAMBDA r : InRanges(r, nd.rs))
    [] nd.op = "class" ->
         IF \E k \in 1..Len(nd.ss) : HasAt(src, p, nd.ss[k])
         THEN LET k == CHOOSE k \in 1..Len(nd.ss) :
                         /\ HasAt(src, p, nd.ss[k])
                         /\ \A j \in 1..(k-1) : ~HasAt(src, p, nd.ss[j])
              IN TextTok("CharClass", src, p, nd.ss[k])
         ELSE LU
    [] nd.op = "classN" ->
         IF \E k \in 1..Len(nd.ss) : HasAt(src, p, nd.ss[k]) THEN LU
         ELSE CharTok("CharClassN", src, p, LAMBDA r : TRUE)
    [] nd.op \in {"ws", "wsnl", "lbk", "alpha", "num", "alnum", "bin", "oct", "hex"} ->
         CharTok(ClassName(nd.op), src, p, LAMBDA r : InRanges(r, ClassRanges(nd.op)))
    [] nd.op = "wb"    -> Boundary(src, p, IsWord)
    [] nd.op = "error" -> LE(nd.m)
    [] nd.op = "unmatched" -> LU
    [] nd.op = "zero"  -> LM(0, [k \in 1..Len(nd.as) |-> [nd.as[k] EXCEPT ![6] = p, ![7] = 0]])
    (* recognisers on slices of values *)
    [] nd.op = "oany"  -> OneObj("OAny", src, p, LAMBDA v : TRUE)
    [] nd.op = "oend"  -> IF p = Len(src) THEN LM(0, <<>>) ELSE LU
    [] nd.op = "oclass" -> OneObj("ObjClass", src, p, LAMBDA v : In(nd.vs, v))
    [] nd.op = "oclassN" -> OneObj("ObjClassN", src, p, LAMBDA v : ~In(nd.vs, v))
    [] nd.op = "ofn"   -> OneObj("ObjClassFn", src, p, LAMBDA v : ObjPred(nd.pr, v))
    (* recognisers on lists of ASTs *)
    [] nd.op = "acls"  -> OneAst(src, p, LAMBDA a : \E k \in 1..Len(nd.cns) : nd.cns[k] = Cls(a), "ObjClassFn")
    [] nd.op = "aany"  -> OneAst(src, p, LAMBDA a : TRUE, "OAny")
    [] nd.op = "oseq"  ->
         IF HasAt(src, p, nd.vs)
         THEN LM(Len(nd.vs), << MkAst("OSeq", "ListOfAny", "slice", nd.vs, <<>>, p, Len(nd.vs), 0) >>)
         ELSE LU

IsLeaf(op) == op \in {"any", "end", "start", "seq", "seqi", "range", "rangeN", "classFn", "class",
   "classN", "ws", "wsnl", "lbk", "alpha", "num", "alnum", "bin", "oct", "hex", "wb", "error",
   "unmatched", "zero", "oany", "oend", "oclass", "oclassN", "ofn", "oseq",
   "acls", "aany"}
=============================================================================
