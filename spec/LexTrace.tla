-------------------------------- MODULE LexTrace --------------------------------
(* Recorded runs of single recognisers. *)
EXTENDS Lexical, Leaves, TLC, Json, IOUtils
VARIABLES ses, k

(* the outcome o = [st, n, as, ok]: status, advance, ASTs added, nothing else touched *)
Matches(o, end, p) == o.st = "M" /\ o.n = end - p
Not(o) == o.st = "U" /\ o.n = 0 /\ o.as = <<>>
OneText(o, cn, text, p) ==
  /\ Len(o.as) = 1
  /\ Cls(o.as[1]) = cn /\ Typ(o.as[1]) = "String" /\ VKind(o.as[1]) = "str"
  /\ Val(o.as[1]) = text /\ Pos(o.as[1]) = p
Span(src, a, b) == SubSeq(src, a + 1, b)

NumOk(c) ==
  LET e == NumberEnd(c.form, c.src, c.p) IN
  IF e < 0 THEN Not(c.o)
  ELSE /\ Matches(c.o, e, c.p)
       /\ OneText(c.o, c.form, NoSeparators(Span(c.src, c.p, e)), c.p)
       /\ c.conv \in {"ok", "range"}  \* what was accepted can be converted
IdCaseOk(c) ==
  LET e == IdentEnd(c.form, c.src, c.p, TRUE, c.tab) IN
  IF e = c.p THEN Not(c.o)
  ELSE Matches(c.o, e, c.p) /\ OneText(c.o, "IdentifierStr", Span(c.src, c.p, e), c.p)
LeafOk(c) ==
  LET r == LeafStep(c.nd, c.src, c.p, c.fold) IN
  IF r.st = "M" THEN c.o.st = "M" /\ c.o.n = r.n /\ c.o.as = r.as ELSE Not(c.o)
WordOk(c) ==
  LET r == Boundary(c.src, c.p, LAMBDA x : IF c.form = "ascii" THEN IsWord(x) ELSE UnicodeWord(x, Props(c.tab, x))) IN
  IF r.st = "M" THEN c.o.st = "M" /\ c.o.n = 0 /\ c.o.as = <<>> ELSE Not(c.o)

(* sweeps over all code points: outcome per interval of the code space *)
RangesOf(nd) == IF nd.op \in {"range", "rangeN", "classFn"} THEN nd.rs
                ELSE IF nd.op = "any" THEN << <<0, 1114111>> >>
                ELSE IF nd.op = "wb" THEN WordRanges
                ELSE ClassRanges(nd.op)
Expect(nd, r) == InRanges(r, RangesOf(nd)) # (nd.op = "rangeN")
SegOk(nd, s) ==
  LET rs == RangesOf(nd) IN
  /\ (s[3] = "M") = Expect(nd, s[1]) /\ s[3] \in {"M", "U"}
  /\ \A j \in 1..Len(rs) : \* the class does not change inside the interval
       /\ ~(s[1] < rs[j][1] /\ rs[j][1] <= s[2])
       /\ ~(s[1] <= rs[j][2] /\ rs[j][2] < s[2])
Joined(segs) ==
  /\ segs[1][1] = 0 /\ segs[Len(segs)][2] = 1114111
  /\ \A j \in 1..(Len(segs) - 1) :
       segs[j + 1][1] = IF segs[j][2] = 55295 THEN 57344 ELSE segs[j][2] + 1
SweepOk(c) == Joined(c.segs) /\ \A j \in 1..Len(c.segs) : SegOk(c.nd, c.segs[j])

(* sweeps of Unicode-dependent parsers: outcomes by the properties of the character *)
ClassOk(c) ==
  /\ c.total = 1114112 - 2048
  /\ \A j \in 1..Len(c.combos) :
       LET m == c.combos[j] IN
       m.got = (CASE c.what = "idstart" -> IdStart(m.r, m.ps)
                  [] c.what = "idcont" -> IdContinue(m.r, m.ps)
                  [] c.what = "word" -> UnicodeWord(m.r, m.ps))

CaseGood(c) ==
  CASE c.k = "num" -> c.o.ok = 1 /\ NumOk(c)
    [] c.k = "id" -> c.o.ok = 1 /\ IdCaseOk(c)
    [] c.k = "leaf" -> c.o.ok = 1 /\ LeafOk(c)
    [] c.k = "wb" -> c.o.ok = 1 /\ WordOk(c)
    [] c.k = "sweep" -> SweepOk(c)
    [] c.k = "classes" -> ClassOk(c)
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- CaseGood, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
