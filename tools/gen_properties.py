#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Sequence and ordered choice follow the PEG meaning",
 "For every grammar built from the combinators and every input, a sequence matches exactly when its parts match one after another, and an alternative group takes the first listed alternative that matches at that position, never trying a later one and never revisiting the choice. The outcome (matched, not matched, error), the end position and the resulting AST list are those this ordered-choice reading prescribes.",
 ["programs", "inputs"], "all grammars over the combinators, nested arbitrarily and recursively, and all source texts",
 "Grammars are programs: the tests run three example grammars on about 25 texts, none checks commitment to an earlier alternative or the AST list of a failed-then-retried branch.",
 ["base/base.go", "base/parsers.go"],
 [("child loop, ordered choice by continue/break", "base/base.go BaseParser"), ("FlatGroup, First, If, Indirect, Unmatched, Zero, Start", "base/parsers.go")],
 [("position, AST stack, status", "what a parser hands to the next", "base/types.go ParserContext")],
 ["calls of user-supplied child parsers and their results"])
prop("C02", "Repetition is greedy, bounded, all-or-nothing per round, and ends",
 "A repetition matches its whole body as often as possible up to its maximum (negative means unlimited), is unmatched when fewer than the minimum rounds matched, never gives a matched round back, and a round that fails part way contributes neither consumed input nor ASTs. The match count it reports is the number of complete rounds, and a parse whose unlimited repetitions always consume input ends.",
 ["programs", "inputs"], "all minimum/maximum pairs, bodies, nestings of repetitions and inputs, including round counts far above the sampled ones",
 "Tests only use {0,} and {1,} over a single body in fixed texts; bounds, partial last rounds, nested repetition and large counts are never varied.",
 ["base/base.go", "base/parsers.go", "base/const.go"],
 [("iteration loop with saved context, final minimum test", "base/base.go BaseParser"), ("Repeat, Once, ZeroOrOnce, ZeroOrMoreTimes, OneOrMoreTimes", "base/parsers.go")],
 [("count", "complete rounds so far", "base/base.go"), ("saved", "context at the start of the round", "base/base.go")])
prop("C03", "Backtracking leaves no residue",
 "Whenever an alternative, a repetition round, an optional part or a look-around body fails after doing some work, whatever runs next sees exactly the source position and the complete AST stack contents that existed when the failed attempt began. This holds however deep the failed attempt was nested and whichever AST-producing, AST-rewriting or stack-matching parsers it ran.",
 ["programs", "histories", "inputs"], "all sequences of matched, rewritten and rolled-back attempts a grammar can produce on any input",
 "Needs a branch that first grows or rewrites the stack and then fails; no test inspects the AST stack after a rollback, and rollback shares one growing buffer.",
 ["base/base.go", "base/match.go", "base/parsers.go"],
 [("saved / prev contexts", "base/base.go BaseParser"), ("append on a capacity-limited stack", "base/match.go Match"), ("re-slicing in Trans", "base/base.go")],
 [("AstStack", "shared backing array, rolled back by length", "base/types.go")])
prop("C04", "Errors are fatal, immediate and reported unchanged",
 "Once any parser or transformer raises an error, no other alternative, repetition round, parser or transformer runs afterwards, no matter how deep it was raised or inside which choice, repetition, look-around or lazily built parser. The parse as a whole ends with error status, returning that error and the source position the failing step had reached.",
 ["programs", "inputs"], "every place in every grammar where an error can be raised, on every input that reaches it",
 "Three example tests only assert that some error occurs; none checks that nothing ran afterwards, which error came out, or where it is located.",
 ["base/base.go", "base/parsers.go", "base/match.go", "base/transformers.go"],
 [("early return on error status", "base/base.go BaseParser"), ("status normalisation", "base/base.go LightBaseParser"), ("error propagation", "base/parsers.go lookBehindBase")])
prop("C05", "Look-around is zero-width and exact",
 "A look-ahead matches exactly when its body matches from the current position, a look-behind exactly when its body matches from some position between the given minimum and maximum distance back (positions before the start are skipped), and the negative forms are the exact complement. Whatever the body consumed or produced, a matched look-around leaves the source position and the AST stack exactly as they were, regardless of the status left behind by earlier parses.",
 ["programs", "inputs"], "all bodies, distances, nestings and source positions",
 "No test uses look-ahead or look-behind at all.",
 ["base/parsers.go", "base/base.go"],
 [("Rewind and Negative properties", "base/base.go BaseParser"), ("distance loop", "base/parsers.go lookBehindBase")])
prop("C06", "Transformers see and replace exactly their own ASTs",
 "When a parser with transformers matches, its transformers run once each in the listed order: the first receives exactly the ASTs the wrapped parser added, each next one the previous output, and all receive the context as it was before the wrapped parser started. The final output replaces those ASTs and everything below on the stack is unchanged; grouping yields one node holding the list; when the wrapped parser does not match, no transformer runs.",
 ["programs", "inputs"], "all transformer chains, nestings of transformed parsers, stack depths and inputs",
 "Tests only look at final example values; ordering, scope, context and the untouched lower stack are not observed, in particular for growing outputs and nesting.",
 ["base/base.go", "base/parsers.go", "base/transformers.go"],
 [("transformer loop and stack splice", "base/base.go BaseParser"), ("Trans, Group", "base/parsers.go"), ("GroupingTransform", "base/transformers.go")])
prop("C07", "Stock AST list transformers do what they document, without side effects",
 "For AST lists of every length including empty, erasing, grouping, opcode/class/value setting, prepending, pushing, popping, exchanging, rolling, slice conversion, concatenation and trimming each return the documented list (rolling rotates by n in the documented direction, exchange swaps the top two, concatenation joins string values and rejects others). They never modify the list they were given, and give the same result for the same list no matter how often or on what they were used before.",
 ["inputs", "histories"], "all lists, arguments and histories of earlier uses of the same transformer value",
 "The transformer tests in the repository are empty; lists of length 0, 1, 2 and many, rotations by any n and reuse are never exercised.",
 ["base/transformers.go", "string/transformers.go"],
 [("Erase, GroupingTransform, ToSlice, SetOpCode*, ChangeClassName, SetValue, Prepend, Push, Pop, Exchange, Roll", "base/transformers.go"), ("Concat, Trim, TrimStart, TrimEnd", "string/transformers.go")])
prop("C08", "Stack matching picks the first fitting case and rewrites only the top n",
 "A stack-matching parser evaluates its cases in order against the ASTs parsed so far, takes the first case that accepts, replaces the topmost n ASTs (fewer if fewer exist) by the output of that case's transformers, and consumes no input. If no case accepts it is unmatched and nothing changes; ASTs below the top n are never touched; each stock predicate accepts exactly when the top AST's value has that type and equals one of the listed values.",
 ["programs", "inputs", "histories"], "all stacks, n, case lists, predicates and surrounding grammars",
 "No test uses stack matching.",
 ["base/match.go"], [("case loop and splice", "base/match.go Match"), ("TopIs* predicates", "base/match.go")])
prop("C09", "String recognisers match exactly their character class or text",
 "Each string recogniser matches at a position exactly when the next UTF-8 character belongs to its documented class (or the source continues with the given text, case-insensitively where so named), advances by exactly that much and appends one string AST with the matched text; otherwise, including at the end of the source, it is unmatched and changes nothing. An invalid byte counts as one replacement character of length one.",
 ["inputs"], "all positions of all byte strings, all character classes, ranges and texts",
 "All recogniser tests except two cases of one recogniser are empty bodies; boundaries of classes, multi-byte characters, invalid bytes and the end of input are not covered.",
 ["string/parsers.go", "string/util.go", "string/const.go"], [("one parser per class", "string/parsers.go"), ("isWhitespace, isLineBreak, isWord", "string/util.go")])
prop("C10", "Token ASTs record exactly the source span they consumed",
 "Every AST appended by a string or object recogniser carries the start offset and the length of the source it consumed, so that the tokens of any sequence of recognisers tile the consumed input without gap or overlap, and inserted zero-width ASTs carry the current offset and length zero. Concatenation and conversion of tokens keep the span of the first of them, and the context of a matched recogniser reports the length just consumed.",
 ["programs", "inputs"], "all token sequences over all inputs, including after backtracking and look-around",
 "No test looks at source positions of ASTs; whether a span is right depends on what was parsed before it.",
 ["string/parsers.go", "object/parsers.go", "base/parsers.go", "string/transformers.go", "base/types.go"],
 [("SourcePosition set when appending an AST", "string/parsers.go, object/parsers.go"), ("Zero", "base/parsers.go")])
prop("C11", "Word boundaries are found exactly between word and non-word",
 "At every character position of every valid UTF-8 text, the word-boundary assertion matches exactly when one neighbour is a word character and the other is not, the beginning and the end of the text counting as non-word; it consumes nothing and adds no AST. The ASCII form takes letters, digits, underscore and dollar as word characters, the Unicode form identifier-continue characters, dollar and the zero-width joiners.",
 ["inputs"], "all texts and positions, characters of every encoded length",
 "The only test of it is empty; the previous character has to be found by scanning bytes backwards, which depends on encoded lengths.",
 ["string/parsers.go", "extra/extra.go", "string/util.go", "extra/util.go"], [("WordBoundary", "string/parsers.go"), ("UnicodeWordBoundary", "extra/extra.go"), ("isUnicodeWord", "extra/util.go")])
prop("C12", "Object recognisers match exactly the listed values",
 "On a source that is any slice type, each object recogniser matches exactly when the next element (or the next elements for a sequence) equals, or for the negated form does not equal, the listed values or satisfies the given predicate; it then advances by that many elements and appends one AST holding the matched element or elements, typed as an arbitrary value or list of values. Otherwise, including when too few elements remain, it is unmatched, changes nothing and never reads outside the source.",
 ["inputs", "programs"], "all slices, positions, value lists and predicates",
 "The object package has a single placeholder test.",
 ["object/parsers.go", "base/types.go"], [("Any, End, Seq, ObjClass, ObjClassN, ObjClassFn", "object/parsers.go")])
prop("C13", "Production rules reduce by precedence and associativity to the accepted form",
 "Applying production rules repeatedly rewrites one matched part of the AST list at a time: always a rule of the highest precedence level that matches anywhere, at the leftmost position (rightmost for right-to-left levels), earlier listed rules first, starting over from the highest level after each rewrite. It stops as soon as the acceptance pattern matches after a round, fails with an error if no rule applies and the pattern does not match, and passes a rule's error on; operator expressions therefore reduce to the tree that conventional precedence and associativity give.",
 ["programs", "inputs"], "all rule sets with levels and directions and all AST lists",
 "Twenty example texts over one rule set; scan direction, rule order, restart and failure of the procedure are only sampled through arithmetic values.",
 ["base/production.go"], [("level / position / rule loops and splice", "base/production.go ProductionRule"), ("acceptance test each round", "base/production.go")],
 [("asts", "current AST list", "base/production.go")])
prop("C14", "Tree traversal visits, rewrites and aborts in the prescribed order",
 "Traversal calls the outbound handler on a node before and the return handler after all of its children, children in order, without entering lazily marked nodes, and returns a rebuilt tree of the handlers' outputs while leaving the original tree unmodified. In last-item mode the list becomes its last normally completed item (an empty AST when there is none), and break, continue and relative jumps requested by an item move the execution position accordingly, ending the list when it lies behind its last item; an error or thrown value stops everything at once and is reported to the error handler of every enclosing node, innermost first, and to the caller.",
 ["programs", "inputs", "fault_sequences"], "all trees, handler decisions (modes, replacements, jumps) and points at which a handler fails or throws",
 "No test calls it.",
 ["base/ast.go"], [("recursive walk", "base/ast.go Traverse"), ("last-item mode loop with position register", "base/ast.go Traverse")])
prop("C15", "Parsers are reusable: results depend only on the input",
 "A built parser gives for each input the same result as a freshly built one, no matter which inputs it parsed before, whether earlier parses failed or raised errors, whether it is re-entered from inside one of its own callbacks, or how many goroutines use it at the same time. Concurrent parses, each started from a context of its own, do not race on shared memory, and earlier results stay intact.",
 ["histories", "schedules", "programs"], "all histories of parses with one parser value, nested and concurrent, including the first uses of lazily built parts",
 "Each test parses sequentially and compares one result; nothing reuses a parser from goroutines, re-enters it, or rechecks older results.",
 ["base/parsers.go", "base/base.go", "base/transformers.go", "base/match.go"],
 [("all state lives in the context passed by value", "base/base.go"), ("one-time lazy construction", "base/parsers.go Indirect"), ("transformers copy what they capture", "base/transformers.go")])
prop("C16", "Debug tracing is faithful, properly nested and transparent",
 "Wrapping parsers for debug tracing never changes a parse result. The tracer given for a scope receives, for every traced parser run inside it, a before event and exactly one closing event (after, with the resulting context and error, or panic, with the panic value, which continues to propagate), properly nested, with a tracking number unique to that parser and the scope path of enclosing traced scopes; parsers built outside the scope are not traced and leaving a scope restores the enclosing scope's tracer.",
 ["programs", "inputs", "fault_sequences"], "all nestings of scopes and parsers, all inputs, errors and panics at any parser",
 "No test enables tracing.",
 ["base/tracer.go", "base/base.go"], [("global construction-time scope with save/restore", "base/tracer.go DebugTrace"), ("event wrapper", "base/tracer.go tracer")],
 [("traceEnabled, traceScope, parserTracer", "current construction scope", "base/tracer.go")])
prop("C17", "Number and identifier texts are recognised and normalised exactly",
 "The binary, octal, hexadecimal, integer, float, general-number and ASCII/Unicode identifier parsers accept at a position exactly the documented form, taking the longest prefix their grammar allows, and yield one string AST of the accepted text without digit separators and with their class name. Every accepted number text denotes a number that the corresponding conversion can parse unless it is out of range, and text that does not start with such a form is unmatched without consuming anything.",
 ["inputs"], "all texts, including signs, separators, leading zeros, missing digits and exponents, and what follows the number",
 "Only indirectly tested with about ten plain decimal integers in the formula examples.",
 ["extra/extra.go"], [("*NumberStr, NumericStr, *IdentifierStr grammars", "extra/extra.go")])
prop("C18", "Date and time texts normalise and convert to the right instant",
 "The date, time and date-time parsers accept exactly the documented ISO 8601 forms and yield the normalised text (seconds and a nine-digit fraction filled in, Z written as +00:00). Converting yields the same instant in UTC for every calendar-valid text with a four-digit year, and an error, never a wrong instant or a panic, for a text that names no valid date, time or offset.",
 ["inputs"], "all combinations of fields, optional parts, fraction lengths, offsets and calendar-invalid values",
 "Nothing tests them.",
 ["extra/extra.go", "extra/transformers.go"], [("DateStr, DateTimeStr, TimeStr", "extra/extra.go"), ("ParseDate, ParseDateTime, ParseTime", "extra/transformers.go")])
prop("C19", "Text to value conversions are exact, typed and fail with errors only",
 "Converting the concatenated text of tokens to a signed, unsigned, floating-point or character value gives exactly the value the text denotes in the requested radix, with the type tag that matches the value's dynamic type and class name and span of the first token. Malformed, empty or out-of-range text gives an error, never a panic or a wrong value.",
 ["inputs"], "all texts in all radices, around the range limits, and token lists of any length",
 "The conversion tests are empty.",
 ["string/transformers.go"], [("ParseInt/Uint(Radix), ParseFloat, RuneFromInt, IntFromRune, StringFromInt, StringFromRune", "string/transformers.go")])
prop("C20", "Custom parser implementations are called by a fixed protocol",
 "For a parser defined through the general construction interface, the implementation function is called once after each completed round with the number of children matched in it, the stack height at entry and the round index, and once at the end with -1, before any rewinding and transformation, and never for rounds that failed or when the parser is unmatched. A returned error always becomes error status and reaches the caller, an unmatched round result ends the repetition and undoes that round, and all property combinations (bounds, alternation, negation, rewinding) compose as each does alone.",
 ["programs", "inputs", "fault_sequences"], "all property combinations, child counts, callback decisions and failure points",
 "No test or example supplies an implementation function or combines the properties.",
 ["base/base.go"], [("BaseParser main loop and final call", "base/base.go"), ("LightBaseParser status normalisation", "base/base.go")])
prop("C21", "Reported error locations are right for every position and line ending",
 "For every text and offset within it, the location report gives the line number counting CR, LF and CRLF each as one line break, the column counted from the start of that line, the index of that line start, and the offset itself. The excerpt shows the previous line (if any) and the current line with tabs expanded, and the caret marker starts under the reported column.",
 ["inputs"], "all texts over tabs, CR, LF, CRLF mixes, all offsets from 0 to the length, all tab sizes",
 "Examples print it on failing inputs but never compare it.",
 ["base/util.go"], [("byte scan and excerpt assembly", "base/util.go GetLineAndColPosition")])
prop("C22", "CSV text parses to its table and written CSV reads back identically",
 "The CSV parser turns text into rows and cells: commas and line breaks separate, unquoted cells are trimmed, quoted cells keep their content exactly with doubled quotes read as one, blank trailing rows are dropped, and an unterminated quote is an error with its location. Writing any table of valid text whose rows have at least one cell and are not a single empty one, and reading it back, gives the same table, and a slice of structs written with a header reads back equal, with only the selected columns written and short rows reported as errors.",
 ["inputs"], "all texts and all tables of cells, including quotes, commas, every line break character, edge whitespace and empty cells",
 "Five fixed texts, none with escaped quotes, whitespace or blank rows, and no round trip.",
 ["_examples/csv/parser.go", "_examples/csv/marshal.go"], [("grammar", "_examples/csv/parser.go"), ("quoting rule", "_examples/csv/marshal.go toCsvRow"), ("column mapping", "_examples/csv/marshal.go Marshal, Unmarshal")])
prop("C23", "Formulas evaluate, and convert to RPN, by the usual arithmetic rules",
 "For every text, the formula parser accepts exactly well-formed integer expressions over + - * / unary minus and parentheses with optional whitespace, and returns the value given by the usual precedence, left associativity and truncating division; the RPN converter returns the postfix form of the same expression tree with signs folded into number literals. Everything else, including division by zero and out-of-range literals, is an error and never a panic.",
 ["inputs"], "all texts over the expression alphabet, all nesting depths and operator mixes",
 "22 fixed expressions; nesting, mixed precedence and error texts are only sampled.",
 ["_examples/formula/formula.go", "_examples/formula/precedence.go", "_examples/torpn/torpn.go", "_examples/torpn/precedence.go", "base/production.go"],
 [("grammar and production rules", "_examples/formula, _examples/torpn")])
prop("C24", "Boxes read back what was last written to the same place",
 "Reading a box returns the value most recently written to the same variable, slice element or map entry through any box or directly, with the type it was written as, including nil; writing affects no other place. (A box obtained by looking a key up in a boxed map keeps the entry as it was then.) A box for a not-yet-initialised map entry panics on every read until it has been written once, and behaves like an ordinary map entry box from then on.",
 ["histories"], "all interleavings of writes and reads through several boxes on shared containers",
 "Nothing tests boxes.",
 ["base/box.go"], [("ReflectionBox, MapContainerReflectionBox, NotInitializedMapContainerReflectionBox", "base/box.go")],
 [("Initialized", "whether the entry was written through this box", "base/box.go")])
prop("C25", "AST slices honour the slice contract and equality is structural",
 "An AST slice used as a source honours the slice interface: length, get, set, sub-slice (shares elements), copy (independent of the original) and make agree with one another under every sequence of operations. Element equality is a structural equivalence on class name, type and value, recursively through pairs and lists, and ignores opcode and source position.",
 ["histories", "inputs"], "all sequences of operations on shared and copied slices, all pairs of AST trees",
 "Only used implicitly by a test helper; no aliasing or inequality case is tested.",
 ["base/ast.go", "base/types.go"], [("AstSlice methods, ItemEquals", "base/ast.go")])
prop("C26", "Source and user tag reach every parser and transformer unchanged",
 "The source and the user-defined tag with which a parse is started are what every parser, implementation function, transformer and stack-match case sees throughout that parse, including inside look-arounds, lazily built parsers and after backtracking, and production rules and their acceptance pattern see the tag of the parse they run in. A different tag that a custom parser puts into the context it returns holds for what follows it, and is forgotten when the attempt it was part of fails. The ASTs already on the stack when a parser is entered remain below whatever it adds.",
 ["programs", "inputs"], "all grammars, inputs and tags",
 "No test sets a tag or reads the context inside a callback.",
 ["base/base.go", "base/production.go", "base/match.go", "string/new.go", "object/new.go"],
 [("context passed by value", "base/base.go"), ("newContext", "base/production.go"), ("constructors", "string/new.go, object/new.go")])
prop("C27", "Lazily built parsers act as the parser they build, built once on first use",
 "A lazily built parser has exactly the outcome (matched, unmatched or error, position and ASTs) of the parser its factory returns, wherever it stands, which makes recursive and mutually recursive grammars recognise exactly the language of their equations to any depth. The factory is not called before the parser is first run and is called at most once per parser value, also under concurrent first use; a construction-time conditional behaves as the selected parser.",
 ["programs", "inputs", "schedules"], "all recursive grammars, nesting depths, inputs and first-use orders",
 "Only the arithmetic examples use one recursive rule, to depth three.",
 ["base/parsers.go"], [("Indirect", "base/parsers.go"), ("If", "base/parsers.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
