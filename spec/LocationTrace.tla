----------------------------- MODULE LocationTrace -----------------------------
EXTENDS Location, TLC, Json, IOUtils
VARIABLES ses, k
Ok(c) == /\ c.line = LineNo(c.src, c.p)
         /\ c.col = ColNo(c.src, c.p)
         /\ c.li = LineStart(c.src, c.p)
         /\ c.pos = c.p
         /\ Lines(c.ex, 0) = ExcerptLines(c.src, c.p, c.tab)
Recorded == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Cases WITH CaseOk <- Ok, Trace <- Recorded
Spec == C!Spec
Allowed == C!Allowed
Alias == C!Alias
=============================================================================
