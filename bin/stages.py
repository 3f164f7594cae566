"""What each check runs: models for TLC, and case families whose traces TLC validates."""

CHECKS = {}


def model(name, module, cfg, quick=None, thorough=None, consts=None, **kw):
    return dict(kind="model", name=name, module=module, cfg=cfg, consts=consts or {},
                quick=quick or {}, thorough=thorough or {}, **kw)


def trace(fam, module, cfg, quick, thorough, **kw):
    return dict(kind="trace", fam=fam, module=module, cfg=cfg, quick=quick, thorough=thorough, **kw)


def check(cid, stages, assumptions=()):
    CHECKS[cid] = dict(stages=stages, assumptions=list(assumptions))


# ---------------------------------------------------------------- the parsing engine
MC_CFG = """SPECIFICATION Spec
INVARIANTS Denotes LowerStackKept NoResidue ZeroWidth Bounded Tiles Spans OwnContext TagForgotten
PROPERTIES ErrorIsFinal BuiltOnce Ends
"""
GEN_CFG = """INIT NoInit
NEXT NoNext
CHECK_DEADLOCK FALSE
"""
PARSE_CFG = """SPECIFICATION Spec
INVARIANTS Conforms Denotes
VIEW View
ALIAS Alias
"""


CASE_CFG = """SPECIFICATION Spec
INVARIANT Allowed
ALIAS Alias
CHECK_DEADLOCK FALSE
"""


HIST_CFG = """SPECIFICATION Spec
INVARIANT Conforms
ALIAS Alias
CHECK_DEADLOCK FALSE
"""


def cases(fam, module, nq=0, nt=0, **kw):
    return trace(fam, module, CASE_CFG, nq, nt, **kw)


def scale(name):
    """large parametric grammars against their closed forms"""
    return cases("scale-" + name, "ScaleTrace", limit=60)


def engine(theme, fam, nq, nt, q=(3, 2), t=(4, 2), genq=None, gent=None, more=()):
    """model + specification-generated sessions + random sessions of a profile"""
    genq, gent = genq or q, gent or t
    f = theme + ".ndjson"
    c = lambda sz: {"Theme": '"%s"' % theme, "Size": sz[0], "MaxLen": sz[1]}
    return [model("engine-" + theme, "MachineMC", MC_CFG, c(q), c(t)),
            model("sessions-" + theme, "MachineGen", GEN_CFG, c(genq), c(gent), workers=1, sessions=f),
            trace("spec", "ParseTrace", PARSE_CFG, 0, 0, name="spec-" + theme, sessions=f),
            rnd(fam, nq, nt), *more]


def small(theme, q=(3, 2), t=(4, 2), genq=None, gent=None):
    """model + specification-generated sessions of a theme"""
    return engine(theme, None, 0, 0, q, t, genq, gent)[:3]


def rnd(fam, nq, nt, **kw):
    return trace(fam, "ParseTrace", PARSE_CFG, nq, nt, **kw)


BASIC = ["The driver's projection of ASTs and values is trusted.",
         "Random sessions: grammars of up to about 40 nodes, texts of up to 60 bytes; the 'big' family goes to "
         "hundreds (thorough: over a thousand) of rounds and tokens."]

check("C01", [scale("choice")] + engine("choice", "choice", 3000, 40000, t=(4, 3), gent=(4, 2),
                    more=[rnd("mix", 1500, 30000), rnd("big", 8, 40)]), BASIC)
check("C02", [scale("rep")] + engine("rep", "repeat", 1600, 20000, genq=(3, 3), gent=(4, 2), more=[rnd("big", 8, 40)]), BASIC)
check("C03", [scale("back")] + engine("back", "back", 4000, 50000, more=[rnd("mix", 1000, 20000)]), BASIC)
check("C04", [scale("err")] + engine("err", "errors", 4000, 50000), BASIC)
check("C05", [scale("look")] + engine("look", "look", 4000, 50000, more=[rnd("big", 8, 40)]), BASIC)
check("C06", [scale("trans")] + engine("trans", "trans", 4000, 50000, more=[rnd("big", 8, 40)]), BASIC)
check("C08", [scale("match")] + engine("match", "match", 5000, 60000, more=[rnd("big", 8, 40)]) +
      [trace("preds", "PredTrace", CASE_CFG, 0, 0)], BASIC)
check("C20", [scale("custom")] + engine("custom", "custom", 4000, 50000, q=(2, 2), t=(2, 3)), BASIC)

# ---------------------------------------------------------------- lazily built parsers, sharing
LAZY_MC = """SPECIFICATION Spec
INVARIANT Once2
PROPERTY AllServed
"""
LAZY_TRACE = """SPECIFICATION Spec
INVARIANT Once
ALIAS Alias
"""


def lazy_mc():
    return model("first-use", "LazyMC", LAZY_MC, dict(Parsers="{1, 2}", Procs="{1, 2, 3}", MaxCalls=2),
                 dict(Parsers="{1, 2, 3}", Procs="{1, 2, 3}", MaxCalls=3))


def conc(nq, nt):
    return [trace("conc", "ParseTrace", PARSE_CFG, nq, nt, race=True, limit=60),
            trace("conclazy", "LazyTrace", LAZY_TRACE, nq, nt, race=True, limit=60, deadlock=True)]


RACE = ["Data races are what the Go race detector sees in the interleavings that ran; the interleavings of first "
        "use are explored in the model."]
check("C10", [scale("span")] + small("span", (3, 3), (4, 3), (3, 3), (4, 2)) + [rnd("span", 3000, 50000), rnd("obj-int", 800, 10000), rnd("big", 8, 40)], BASIC)
check("C12", [scale("obj")] + small("obj", (3, 2), (3, 4)) + [rnd("obj-int", 1200, 20000), rnd("obj-any", 1200, 20000), rnd("obj-ast", 1200, 20000)], BASIC)
check("C15", [scale("again")] + small("reuse", (3, 2), (4, 2)) + [lazy_mc(), rnd("reuse", 1600, 25000), rnd("reuse-obj", 500, 10000), *conc(160, 3000),
              trace("prodconc", "ProductionTrace", HIST_CFG, 120, 3000, race=True, limit=60), *[
              cases("par-" + f, m, nq, nt, race=True, limit=60) for f, m, nq, nt in [
                  ("formula", "FormulaTrace", 40, 1000), ("csv", "CsvTrace", 30, 1000), ("csvrec", "CsvTrace", 30, 1000),
                  ("conv", "ConvTrace", 30, 600), ("transdirect", "TransformTrace", 40, 1200), ("lexcase", "LexTrace", 40, 1200),
                  ("wbcase", "LexTrace", 30, 1000), ("leafcase", "LexTrace", 40, 1200), ("datetime", "DateTimeTrace", 40, 1200),
                  ("locbig", "LocationTrace", 16, 300), ("treeeq", "EqualTrace", 40, 1000)]]], BASIC + RACE)
check("C27", [scale("lazy")] + small("lazy", (4, 3), (5, 3), (4, 3), (5, 3)) + [lazy_mc(), rnd("lazy", 3000, 40000), rnd("big", 8, 40), *conc(120, 2000)], BASIC + RACE)

# ---------------------------------------------------------------- functions: recorded calls
INV_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS """


check("C21", [model("location", "LocationMC", INV_CFG + "Agree WholeLines\n", dict(MaxLen=7), dict(MaxLen=9)),
              cases("loc", "LocationTrace"), cases("locbig", "LocationTrace", 60, 3000), cases("loclong", "LocationTrace", limit=60)],
      ["Line breaks inside the excerpt may be of any kind."])

# ---------------------------------------------------------------- boxes, slices: histories
check("C24", [model("boxes", "BoxMC", INV_CFG + "LastWritten UntilWritten Kept\n", dict(MaxOps=5), dict(MaxOps=6)),
              trace("box", "BoxTrace", HIST_CFG, 1500, 40000)],
      ["Typed getters are used on containers of that type, SetAny/GetAny everywhere.",
       "Reads of map entries that do not exist are not described.",
       "A box taken out of a map value (ReflectionBox.MapIndex) keeps the entry as it was."])
check("C25", [model("slices", "SliceMC", INV_CFG + "Shows InBounds\n", dict(MaxOps=4), dict(MaxOps=5)),
              trace("slice", "SliceTrace", HIST_CFG, 1500, 40000),
              cases("treeeq", "EqualTrace", 300, 8000)],
      ["Values held as Any or ListOfAny are compared as Go values; functions and NaN are left out."])

# ---------------------------------------------------------------- transformers, conversions
check("C07", [scale("list")] + [model("transformers", "TransformMC", INV_CFG + "Laws\n", dict(MaxLen=3, MaxOps=1), dict(MaxLen=4, MaxOps=2)),
              cases("transdirect", "TransformTrace", 300, 12000), rnd("trans", 800, 20000)],
      ["Lists of up to 80 ASTs."])
check("C19", [model("conversions", "ConvMC", INV_CFG + "Agree\n", dict(MaxLen=4, Radices="{2, 8, 10, 16, 36}"),
                    dict(MaxLen=5, Radices="{2, 3, 8, 10, 11, 16, 36}")),
              cases("convradix", "ConvTrace"), cases("convfloat", "ConvTrace"),
               cases("conv", "ConvTrace", 200, 6000)],
      ["Floating-point texts: decimal, up to about 80 digits, near the middle between two doubles, at both ends of the range; "
       "Infinity, NaN and hexadecimal texts are left out."])

# ---------------------------------------------------------------- recognisers, words, numbers
LEX = ["Unicode categories come from the Go library's tables; which of them make a word or an identifier is specified.",
       "Case-insensitive texts: characters whose case variants have the same number of bytes."]
check("C09", [scale("text")] + small("leaf", (2, 3), (3, 2), (2, 3), (3, 2)) + [cases("leafsweep", "LexTrace", limit=60), cases("seqisweep", "LexTrace", limit=60),
              cases("leafcase", "LexTrace", 300, 20000), cases("bytesweep", "LexTrace"), rnd("span", 1500, 30000)], LEX)
check("C11", small("word", (3, 3), (4, 3)) + [cases("wbsweep", "LexTrace", limit=60), cases("wbcase", "LexTrace", 150, 8000), rnd("span", 600, 10000)],
      LEX + ["Valid UTF-8 texts, at character boundaries."])
FORMS = ["BinaryNumberStr", "OctalNumberStr", "HexNumberStr", "IntegerNumberStr", "FloatNumberStr", "NumericStr"]
check("C17", [model("number-" + f, "LexicalMC", INV_CFG + "Accepts LongestOne\n", dict(Form='"%s"' % f, MaxLen=4),
                    dict(Form='"%s"' % f, MaxLen=6)) for f in FORMS] +
      [cases("numtexts", "LexTrace"), cases("numdeep", "LexTrace"), cases("numbytes", "LexTrace"), cases("lexcase", "LexTrace", 200, 12000), cases("idsweep", "LexTrace", limit=60)], LEX)

# ---------------------------------------------------------------- dates and times
check("C18", [model("calendar", "CalendarMC", INV_CFG + "Counts\n", dict(First=1890, Last=2110), dict(First=0, Last=10000)),
              model("date-texts", "DateTimeMC", INV_CFG + "Whole Cut Again Named\n",
                    dict(Years="{1900, 2000}", Hours="{0, 23, 24}", Zones="{9999, 0, 10090, 1439, 11439, 1440, 1500}"),
                    dict(Years="{0, 4, 100, 1900, 1970, 2000, 2023, 9999}", Hours="{0, 12, 23, 24, 29}",
                         Zones="{9999, 0, 10090, 330, 1439, 11439, 1440, 1500}")),
              cases("days", "DateTimeTrace"), cases("rollover", "DateTimeTrace"), cases("dtbytes", "DateTimeTrace"), cases("clock", "DateTimeTrace"), cases("datetime", "DateTimeTrace", 200, 20000)],
      ["Years of other than four digits and offsets of 24 hours may be errors; where they are converted, the instant must be right."])

# ---------------------------------------------------------------- production rules
check("C13", [model("operators", "ProductionMC", INV_CFG + "Trees\nPROPERTIES Ends\n", dict(MaxLen=5), dict(MaxLen=7)),
              trace("prod", "ProductionTrace", HIST_CFG, 1200, 40000), trace("prodbig", "ProductionTrace", HIST_CFG, 24, 1000)],
      ["Rules are patterns over the classes of ASTs; lists of up to about 40 ASTs."])

check("C26", [scale("below")] + small("tags", (3, 2), (4, 2)) + [rnd("tags", 3000, 40000), rnd("obj-any", 600, 10000),
              trace("prod", "ProductionTrace", HIST_CFG, 800, 10000)], BASIC)

# ---------------------------------------------------------------- traversal
check("C14", [model("traversal", "TraverseMC", INV_CFG + "Nested LazyKept LastOnly Shape Stops AllTold\nPROPERTIES Ends\n"
                    "CONSTANTS\n  There <- ThereAny\n  Back <- BackAny\n", dict(MaxVisits=1), dict(MaxVisits=2)),
              trace("trav", "TraverseTrace", HIST_CFG, 2500, 60000), trace("travbig", "TraverseTrace", HIST_CFG, 60, 2000),
       trace("travwide", "TraverseTrace", HIST_CFG, 12, 200)],
      ["Handlers keep the opcodes, which identify the nodes; jumps stay within the list or go behind its end.",
       "A list in last-item mode none of whose items completed normally holds one empty AST."])

# ---------------------------------------------------------------- formulas
check("C23", [model("formulas", "FormulaMC", INV_CFG + "SameTexts SameValue SameBig SamePostfix SpacesFree FoldedOnce\n",
                    dict(MaxLen=7, Numbers="{0, 2}"), dict(MaxLen=9, Numbers="{0, 3}")),
              cases("formtexts", "FormulaTrace"), cases("formchars", "FormulaTrace"), cases("formula", "FormulaTrace", 200, 20000),
              cases("formbig", "FormulaTrace", 40, 2000)],
      ["Overflow of the arithmetic is not described; -2^63 may be taken for a literal or for the negation of one that is out of range."])

# ---------------------------------------------------------------- comma-separated text
check("C22", [model("tables", "CsvMC", INV_CFG + "SameReading RoundTrip NeedlessQuotes\n", dict(MaxText=5, MaxTable=6),
                    dict(MaxText=8, MaxTable=8)),
              cases("csvtexts", "CsvTrace"), cases("csvchars", "CsvTrace"), cases("csv", "CsvTrace", 150, 15000),
              cases("csvrec", "CsvTrace", 150, 15000), cases("csvbig", "CsvTrace", 40, 1500)],
      ["Valid UTF-8 texts; column names are different from each other, and so are the columns of the fields.",
       "Fields of string, integer and floating-point kinds; what fits 64 bits but not the field, and the texts of "
       "floating-point cells, are left open (records written are read back equal).",
       "Unmarshal is given an empty slice."])

# ---------------------------------------------------------------- debug tracing
TRACER_CFG = """SPECIFICATION Spec
INVARIANTS Conforms InProgress
VIEW View
ALIAS Alias
"""
TRACER_MC = """SPECIFICATION Spec
INVARIANTS GivenIsLexical SettingIsLexical OffOutside NumbersDiffer LogObeys
"""
check("C16", [model("scopes", "TracerMC", TRACER_MC,
                    dict(Names='{"a"}', Tracers="{1, 2}", MaxOps=4, MaxParsers=4, MaxCalls=4),
                    dict(Names='{"a", "b"}', Tracers="{1, 2}", MaxOps=5, MaxParsers=5, MaxCalls=5)),
              trace("tracer", "TracerTrace", TRACER_CFG, 3000, 40000)], BASIC)
