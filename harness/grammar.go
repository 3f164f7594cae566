package main

// Grammars as data, the real parsers built from them, and the recording
// wrappers around every sub-parser, transformer, predicate and callback.

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"

	. "github.com/shellyln/takenoco/base"
	objparser "github.com/shellyln/takenoco/object"
	strparser "github.com/shellyln/takenoco/string"
)

// Tr is a transformer.
type Tr struct {
	T   string
	Lg  bool
	N   int
	Cn  string
	M   string
	Ast AstV
}

func (t Tr) J() D {
	d := D{"t": t.T, "lg": t.Lg}
	switch t.T {
	case "mark":
		d["cn"] = t.Cn
	case "err", "terr":
		d["m"] = t.M
	case "roll", "setop", "pick":
		d["n"] = t.N
	case "reduce":
		d["cn"] = t.Cn
	case "prepend", "push", "setval":
		d["ast"] = t.Ast.J()
	case "setcls":
		d["cn"] = t.Cn
	case "setopcls":
		d["cn"] = t.Cn
		d["n"] = t.N
	}
	return d
}

// Act is one scripted action of a callback.
type Act struct {
	R   string // M, U, E
	How int    // how an error is raised: 0 status and error, 1 error only, 2 status only
	M   string
	Adv int
	As  []AstV
	U   int // the tag from here on, 0: as it is
}

func (a Act) J() D {
	m := a.M
	if a.R == "E" && a.How == 2 {
		m = ""
	}
	return D{"r": a.R, "m": m, "adv": a.Adv, "as": astsJ(a.As), "u": a.U}
}

type Fn struct {
	Rounds []Act
	Rest   Act
	Fin    Act
}

func (f *Fn) J() D {
	if f == nil {
		return D{"k": "no"}
	}
	rs := L{}
	for _, r := range f.Rounds {
		rs = append(rs, r.J())
	}
	return D{"k": "fn", "rounds": rs, "rest": f.Rest.J(), "fin": f.Fin.J()}
}

type PredV struct {
	Vt string
	Vb []int
	Ch []AstV
}

type Pr struct {
	K  string
	N  int
	D  int
	Cn string
	Vs [][]int
	Is []PredV
}

func (p Pr) J() D {
	d := D{"k": p.K}
	switch p.K {
	case "min":
		d["n"] = p.N
	case "cls":
		d["cn"] = p.Cn
	case "rune", "int", "uint", "float", "bool", "str":
		l := L{}
		for _, v := range p.Vs {
			l = append(l, ints(v))
		}
		d["vs"] = l
	case "is":
		l := L{}
		for _, v := range p.Is {
			l = append(l, L{v.Vt, ints(v.Vb), astsJ(v.Ch)})
		}
		d["vs"] = l
	case "ge":
		d["n"] = p.N
	case "mod":
		d["n"] = p.N
		d["d"] = p.D
	}
	return d
}

type CaseV struct {
	Pr Pr
	Tr []Tr
}

type Node struct {
	Op         string
	Ch         []int
	Lg         bool
	S          string
	SS         []string
	RS         [][2]int
	Mn, Mx     int
	Ng, Ex, Rw bool
	Tr         []Tr
	Fn         *Fn
	As         []AstV
	M          string
	Cases      []CaseV
	N          int
	On         int
	T, E       Act
	Raw        bool
	Src        int
	Vs         []int
	Pr         Pr
	Fresh      bool
	Cond       bool
}

func trsJ(ts []Tr) L {
	r := L{}
	for _, t := range ts {
		r = append(r, t.J())
	}
	return r
}

func (n *Node) J() D {
	ch := make([]int, len(n.Ch))
	for i, c := range n.Ch {
		ch[i] = c + 1
	}
	d := D{"op": n.Op, "lg": n.Lg}
	switch n.Op {
	case "flat", "group", "first", "la", "lan", "once", "opt", "star", "plus", "if":
		d["ch"] = ch
	case "dbg":
		d["ch"] = ch
		d["scope"] = n.S
		d["tr"] = n.N
	case "ind":
		d["ch"] = ch
		d["bl"] = !n.Fresh
	case "rep", "lb", "lbn":
		d["ch"] = ch
		d["mn"] = n.Mn
		d["mx"] = n.Mx
	case "trans":
		d["ch"] = ch
		d["tr"] = trsJ(n.Tr)
	case "custom":
		d["ch"] = ch
		d["mn"] = n.Mn
		d["mx"] = n.Mx
		d["ng"] = n.Ng
		d["ex"] = n.Ex
		d["rw"] = n.Rw
		d["tr"] = trsJ(n.Tr)
		d["fn"] = n.Fn.J()
	case "seq", "seqi":
		d["s"] = bytesJ(n.S)
	case "class", "classN":
		l := L{}
		for _, s := range n.SS {
			l = append(l, bytesJ(s))
		}
		d["ss"] = l
	case "acls":
		l := L{}
		for _, s := range n.SS {
			l = append(l, s)
		}
		d["cns"] = l
	case "range", "rangeN", "classFn":
		l := L{}
		for _, r := range n.RS {
			l = append(l, L{r[0], r[1]})
		}
		d["rs"] = l
	case "error":
		d["m"] = n.M
	case "zero":
		d["as"] = astsJ(n.As)
	case "match":
		d["n"] = n.N
		l := L{}
		for _, c := range n.Cases {
			l = append(l, D{"pr": c.Pr.J(), "tr": trsJ(c.Tr)})
		}
		d["cases"] = l
	case "hl":
		d["on"] = n.On
		d["t"] = n.T.J()
		d["e"] = n.E.J()
	case "reent":
		d["ch"] = ch
		d["to"] = n.Src + 1
	case "oseq", "oclass", "oclassN":
		d["vs"] = ints(n.Vs)
	case "ofn":
		d["pr"] = n.Pr.J()
	}
	return d
}

// hErr is an error supplied by the harness; it must come back as the same value.
type hErr struct{ m string }

func (e *hErr) Error() string { return e.m }

func errText(err error) string {
	if err == nil {
		return ""
	}
	if h, ok := err.(*hErr); ok {
		return h.m
	}
	s := err.Error()
	if len(s) >= 2 && s[:2] == "E:" {
		return s
	}
	return "lib"
}

type cutSignal struct{}

// Rec records the events of one session.
type Rec struct {
	*recLog
	id    int // goroutine
	u     int // the tag as a number: run, or minus the re-entering node
	src   int // the source of the parse
	str   string
	slice SliceLike
}

type recLog struct {
	ev     []L
	budget int
	work   int
	quiet  bool
	calls  []call // logged calls in progress
}

func newRec(budget, id int) *Rec { return &Rec{recLog: &recLog{budget: budget}, id: id} }

// parse is the tag of another parse that reports to the same log.
func (s *Rec) parse(b *Builder, u, src int) *Rec {
	r := &Rec{recLog: s.recLog, id: s.id, u: u, src: src + 1}
	r.str, r.slice = b.source(src)
	return r
}

type call struct {
	n   int
	ctx ParserContext
}

// entered tells whether the context is that with which node n was called last.
func (s *Rec) entered(n int, c *ParserContext) bool {
	if len(s.calls) == 0 || s.calls[len(s.calls)-1].n != n {
		return false
	}
	e := &s.calls[len(s.calls)-1].ctx
	return e.SourcePosition == c.SourcePosition && e.Quantity == c.Quantity && e.MatchStatus == c.MatchStatus &&
		len(e.AstStack) == len(c.AstStack)
}

// tick counts work that is not logged.
func (s *Rec) tick() {
	s.work++
	if s.work >= s.budget {
		panic(cutSignal{})
	}
}

func (s *Rec) log(e ...interface{}) {
	if s.quiet {
		if len(s.ev) > 100000 {
			panic(cutSignal{})
		}
		return
	}
	s.ev = append(s.ev, e)
	if len(s.ev) >= s.budget {
		panic(cutSignal{})
	}
}

type Builder struct {
	g       []*Node
	objKind string
	srcs    [][]int
	memo    []ParserFn
	cur     *Rec // the only session (nil when sessions run concurrently)
	Logging bool
	lazy    *lazyLog
	tracers []ParserTracer
}

// name gives the parsers with callbacks their own class names in traced sessions.
func (b *Builder) name(s string, i int) string {
	if b.tracers != nil {
		return fmt.Sprint("n", i+1)
	}
	return s
}

func newBuilder(g []*Node, objKind string, srcs [][]int, logging bool) *Builder {
	return &Builder{g: g, objKind: objKind, srcs: srcs, memo: make([]ParserFn, len(g)), Logging: logging}
}

// rec finds the recorder through the user tag; a parse that lost its tag or
// source shows it.
func (b *Builder) rec(ctx *ParserContext) *Rec {
	r, ok := ctx.Tag.(*Rec)
	if !ok || (b.cur != nil && (r.recLog != b.cur.recLog || r.src != b.cur.src)) {
		r = b.cur
		if r == nil {
			panic("tag lost")
		}
		r.log("tag!")
		return r
	}
	if b.objKind == "prod" {
		return r
	}
	if b.objKind == "" {
		if ctx.Str != r.str {
			r.log("src!")
		}
	} else if !sameSlice(ctx.Slice, r.slice) {
		r.log("src!")
	}
	return r
}

func sameSlice(a, b SliceLike) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	return x.Type() == y.Type() && x.Len() == y.Len() && x.Pointer() == y.Pointer()
}

// sees: source and tag of a context, as numbers
func (b *Builder) sees(ctx *ParserContext) (*Rec, int, int) {
	r, ok := ctx.Tag.(*Rec)
	if !ok {
		return b.cur, 0, 0
	}
	w := b.cur
	if w == nil {
		w = r
	}
	if b.objKind == "" && ctx.Str != w.str || b.objKind != "" && !sameSlice(ctx.Slice, w.slice) {
		return w, 0, r.u
	}
	return w, w.src, r.u
}

var statusNames = map[MatchStatusType]string{
	MatchStatus_Matched: "M", MatchStatus_Unmatched: "U", MatchStatus_Error: "E"}

func status(out *ParserContext, err error) string {
	if err != nil {
		return "E"
	}
	s, ok := statusNames[out.MatchStatus]
	if !ok {
		return fmt.Sprint("status", int(out.MatchStatus))
	}
	return s
}

func (b *Builder) retEvent(n int, out *ParserContext, err error) L {
	k := status(out, err)
	if k == "U" {
		return L{"r", n, k, "", 0, L{}, 0, 0, 0, 0}
	}
	if k == "E" {
		return L{"r", n, k, errText(err), out.Position, L{}, 0, 0, 0, 0}
	}
	_, src, u := b.sees(out)
	return L{"r", n, k, errText(err), out.Position, astsJ(snaps(out.AstStack)), out.Quantity, out.Length, src, u}
}

func (b *Builder) wrap(i int, p ParserFn) ParserFn {
	if !b.Logging && b.tracers == nil {
		return p
	}
	if !b.Logging || !b.g[i].Lg {
		return func(ctx ParserContext) (ParserContext, error) {
			b.rec(&ctx).tick()
			return p(ctx)
		}
	}
	return func(ctx ParserContext) (ParserContext, error) {
		r, src, u := b.sees(&ctx)
		r.log("c", i+1, ctx.Position, astsJ(snaps(ctx.AstStack)), src, u)
		r.calls = append(r.calls, call{i, ctx})
		out, err := p(ctx)
		r.calls = r.calls[:len(r.calls)-1]
		r.log(b.retEvent(i+1, &out, err)...)
		return out, err
	}
}

func (b *Builder) children(n *Node, fresh bool) []ParserFn {
	r := make([]ParserFn, len(n.Ch))
	for i, c := range n.Ch {
		r[i] = b.get(c, fresh)
	}
	return r
}

// get returns the parser of node i (one parser value per node, unless fresh).
func (b *Builder) get(i int, fresh bool) ParserFn {
	if fresh {
		return b.wrap(i, b.build(i, true))
	}
	if b.memo[i] == nil {
		b.memo[i] = b.wrap(i, b.build(i, false))
	}
	return b.memo[i]
}

func (b *Builder) act(a Act, ctx ParserContext) (ParserContext, error) {
	if a.R == "P" {
		panic(panicOf(a.M))
	}
	ctx.Position += a.Adv
	ctx.AstStack = append(ctx.AstStack, mks(a.As)...)
	if a.U != 0 {
		r := *ctx.Tag.(*Rec)
		r.u = a.U
		ctx.Tag = &r
	}
	switch a.R {
	case "U":
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	case "E":
		var err error
		if a.How != 2 {
			err = &hErr{a.M}
		}
		if a.How != 1 {
			ctx.MatchStatus = MatchStatus_Error
		} else {
			ctx.MatchStatus = MatchStatus_Matched
		}
		return ctx, err
	}
	ctx.MatchStatus = MatchStatus_Matched
	return ctx, nil
}

func baseTransformer(t Tr) TransformerFn {
	switch t.T {
	case "id":
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) { return asts, nil }
	case "dup":
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			if len(asts) > 24 {
				return asts, nil
			}
			w := append(make(AstSlice, 0, 2*len(asts)), asts...)
			return append(w, asts...), nil
		}
	case "rev":
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			w := make(AstSlice, len(asts))
			for i := range asts {
				w[len(asts)-1-i] = asts[i]
			}
			return w, nil
		}
	case "mark":
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			w := append(make(AstSlice, 0, len(asts)+1), asts...)
			return append(w, mk(strAst(t.Cn, "", 0, 0))), nil
		}
	case "err":
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) { return nil, &hErr{t.M} }
	case "terr":
		return TransformError(t.M)
	case "erase":
		return Erase
	case "group":
		return GroupingTransform
	case "pop":
		return Pop
	case "xchg":
		return Exchange
	case "roll":
		return Roll(t.N)
	case "prepend":
		return Prepend(mk(t.Ast))
	case "push":
		return Push(mk(t.Ast))
	case "setop":
		return SetOpCode(opCode(t.N))
	case "setcls":
		return ChangeClassName(t.Cn)
	case "setopcls":
		return SetOpCodeAndClassName(opCode(t.N), t.Cn)
	case "setval":
		return SetValue(typeVals[t.Ast.Ty], mkVal(t.Ast))
	case "concat":
		return strparser.Concat
	case "trim":
		return strparser.Trim
	case "trims":
		return strparser.TrimStart
	case "trime":
		return strparser.TrimEnd
	case "toslice":
		return ToSlice
	case "reduce":
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			w := make(AstSlice, len(asts))
			for i, a := range asts {
				w[i] = taken(a)
			}
			return AstSlice{{ClassName: t.Cn, Type: AstType_ListOfAst, Value: w}}, nil
		}
	case "pick":
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			if len(asts) < t.N {
				return AstSlice{}, nil
			}
			return AstSlice{taken(asts[t.N-1])}, nil
		}
	}
	panic("transformer " + t.T)
}

func (b *Builder) transformers(i int, ts []Tr) []TransformerFn {
	r := make([]TransformerFn, len(ts))
	for k, t := range ts {
		f := baseTransformer(t)
		if t.Lg && b.Logging && b.g[i].Lg {
			k, g := k, f
			f = func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				rec, src, u := b.sees(&ctx)
				rec.log("t", i+1, k+1, astsJ(snaps(asts)), ctx.Position, astsJ(snaps(ctx.AstStack)), src, u)
				if b.g[i].Op != "match" && !rec.entered(i, &ctx) {
					rec.log("not the context at entry", i+1, k+1)
				}
				before := astsJ(snaps(asts))
				out, err := g(ctx, asts)
				if err == nil && len(out) == 0 && (i+k)%2 == 0 {
					out = nil // an empty list may be none
				}
				if !sameJ(before, astsJ(snaps(asts))) {
					rec.log("input list changed", i+1, k+1)
				}
				return out, err
			}
		}
		r[k] = f
	}
	return r
}

func taken(a Ast) Ast {
	if w, ok := a.Value.(Ast); ok {
		return w
	}
	return a
}

func inRanges(c rune, rs [][2]int) bool {
	for _, r := range rs {
		if rune(r[0]) <= c && c <= rune(r[1]) {
			return true
		}
	}
	return false
}

func runeRanges(rs [][2]int) []RuneRange {
	r := make([]RuneRange, len(rs))
	for i, x := range rs {
		r[i] = RuneRange{Start: rune(x[0]), End: rune(x[1])}
	}
	return r
}

func (b *Builder) objVals(vs []int) []interface{} {
	r := make([]interface{}, len(vs))
	for i, v := range vs {
		r[i] = objElem(b.objKind, v)
	}
	return r
}

func (b *Builder) pred(i, k int, p Pr) MatchCaseIfFn {
	var f MatchCaseIfFn
	switch p.K {
	case "any":
		f = TopIsAny
	case "never":
		f = func(AstSlice) bool { return false }
	case "min":
		f = func(a AstSlice) bool { return len(a) >= p.N }
	case "cls":
		f = func(a AstSlice) bool { return len(a) > 0 && clsName(a[len(a)-1].ClassName) == p.Cn }
	case "rune":
		v := []rune{}
		for _, x := range p.Vs {
			v = append(v, mkVal(AstV{Vt: "rune", Vb: x}).(rune))
		}
		f = TopIsRune(v...)
	case "int":
		v := []int64{}
		for _, x := range p.Vs {
			v = append(v, mkVal(AstV{Vt: "int", Vb: x}).(int64))
		}
		f = TopIsInt(v...)
	case "uint":
		v := []uint64{}
		for _, x := range p.Vs {
			v = append(v, mkVal(AstV{Vt: "uint", Vb: x}).(uint64))
		}
		f = TopIsUint(v...)
	case "float":
		v := []float64{}
		for _, x := range p.Vs {
			v = append(v, mkVal(AstV{Vt: "float", Vb: x}).(float64))
		}
		f = TopIsFloat(v...)
	case "bool":
		v := []bool{}
		for _, x := range p.Vs {
			v = append(v, mkVal(AstV{Vt: "bool", Vb: x}).(bool))
		}
		f = TopIsBool(v...)
	case "str":
		v := []string{}
		for _, x := range p.Vs {
			v = append(v, toStr(x))
		}
		f = TopIsStr(v...)
	case "is":
		v := []interface{}{}
		for _, x := range p.Is {
			v = append(v, mkVal(AstV{Vt: x.Vt, Vb: x.Vb, Ch: x.Ch}))
		}
		f = TopIs(v...)
	}
	if !b.Logging || !b.g[i].Lg || b.cur == nil {
		return f
	}
	return func(a AstSlice) bool {
		yes := f(a)
		b.cur.log("m", i+1, k+1, yes, astsJ(snaps(a)))
		return yes
	}
}

func objPred(p Pr) func(c interface{}) bool {
	return func(c interface{}) bool {
		v, _ := elemInt(c)
		switch p.K {
		case "ge":
			return v >= p.N
		case "mod":
			return ((v%p.D)+p.D)%p.D == p.N
		case "all":
			return true
		}
		return false
	}
}

func (b *Builder) source(s int) (string, SliceLike) {
	if b.objKind == "" {
		return toStr(b.srcs[s]), nil
	}
	if b.objKind == "mix" { // slices of different types, one after another
		if s%2 == 0 {
			r := make(AnySlice, len(b.srcs[s]))
			for i, v := range b.srcs[s] {
				r[i] = v
			}
			return "", r
		}
		return "", objSource("int", b.srcs[s])
	}
	return "", objSource(b.objKind, b.srcs[s])
}

func (b *Builder) build(i int, fresh bool) ParserFn {
	n := b.g[i]
	switch n.Op {
	case "any":
		return strparser.Any()
	case "end":
		return strparser.End()
	case "start":
		return Start()
	case "seq":
		return strparser.Seq(n.S)
	case "seqi":
		return strparser.SeqI(n.S)
	case "range":
		return strparser.CharRange(runeRanges(n.RS)...)
	case "rangeN":
		return strparser.CharRangeN(runeRanges(n.RS)...)
	case "class":
		return strparser.CharClass(n.SS...)
	case "classN":
		return strparser.CharClassN(n.SS...)
	case "classFn":
		return strparser.CharClassFn(func(c rune) bool { return inRanges(c, n.RS) })
	case "ws":
		return strparser.Whitespace()
	case "wsnl":
		return strparser.WhitespaceNoLineBreak()
	case "lbk":
		return strparser.LineBreak()
	case "alpha":
		return strparser.Alpha()
	case "num":
		return strparser.Number()
	case "alnum":
		return strparser.Alnum()
	case "bin":
		return strparser.BinNumber()
	case "oct":
		return strparser.OctNumber()
	case "hex":
		return strparser.HexNumber()
	case "wb":
		return strparser.WordBoundary()
	case "error":
		return Error(n.M)
	case "unmatched":
		return Unmatched()
	case "zero":
		return Zero(mks(n.As)...)
	case "oany":
		return objparser.Any()
	case "oend":
		return objparser.End()
	case "oseq":
		return objparser.Seq(b.objVals(n.Vs)...)
	case "oclass":
		return objparser.ObjClass(b.objVals(n.Vs)...)
	case "oclassN":
		return objparser.ObjClassN(b.objVals(n.Vs)...)
	case "ofn":
		return objparser.ObjClassFn(objPred(n.Pr))
	case "acls":
		return objparser.ObjClassFn(func(c interface{}) bool {
			a, ok := c.(Ast)
			for _, s := range n.SS {
				if ok && a.ClassName == s {
					return true
				}
			}
			return false
		})
	case "aany":
		return objparser.Any()
	case "flat":
		return FlatGroup(b.children(n, fresh)...)
	case "group":
		return Group(b.children(n, fresh)...)
	case "dbg":
		d := DebugTrace(n.S, b.tracers[n.N-1])
		ch := b.children(n, fresh)
		return d(ch...)
	case "first":
		return First(b.children(n, fresh)...)
	case "la":
		return LookAhead(b.children(n, fresh)...)
	case "lan":
		return LookAheadN(b.children(n, fresh)...)
	case "once":
		return Once(b.children(n, fresh)...)
	case "opt":
		return ZeroOrOnce(b.children(n, fresh)...)
	case "star":
		return ZeroOrMoreTimes(b.children(n, fresh)...)
	case "plus":
		return OneOrMoreTimes(b.children(n, fresh)...)
	case "rep":
		return Repeat(Times{Min: n.Mn, Max: n.Mx}, b.children(n, fresh)...)
	case "trans":
		return Trans(b.get(n.Ch[0], fresh), b.transformers(i, n.Tr)...)
	case "lb":
		return LookBehind(n.Mn, n.Mx, b.behindBody(n, fresh)...)
	case "lbn":
		return LookBehindN(n.Mn, n.Mx, b.behindBody(n, fresh)...)
	case "custom":
		return b.custom(i, n, fresh)
	case "if":
		if n.Cond {
			return If(true, b.get(n.Ch[0], fresh), Error("E:not selected"))
		}
		return If(false, Error("E:not selected"), b.get(n.Ch[0], fresh))
	case "ind":
		fr := fresh || n.Fresh
		if b.lazy != nil {
			return b.lazyInd(i, n)
		}
		return Indirect(func() ParserFn {
			if !fr && b.cur != nil && b.Logging && n.Lg {
				b.cur.log("b", i+1)
			}
			return b.get(n.Ch[0], fr)
		})
	case "match":
		cs := make([]Case, len(n.Cases))
		for k, c := range n.Cases {
			cs[k] = Case{If: b.pred(i, k, c.Pr), Let: b.transformers(i, c.Tr)}
		}
		return Match(n.N)(cs...)
	case "hl":
		f := func(ctx ParserContext) (ParserContext, error) {
			r := b.rec(&ctx)
			a := n.E
			if b.objKind == "" && n.On >= 0 && ctx.Position < len(r.str) && int(r.str[ctx.Position]) == n.On {
				a = n.T
			}
			if b.objKind != "" && b.objKind != "prod" && n.On >= 0 && ctx.Position < r.slice.Len() {
				if v, _ := elemInt(r.slice.Get(ctx.Position)); v == n.On {
					a = n.T
				}
			}
			return b.act(a, ctx)
		}
		if n.Raw {
			return f
		}
		return LightBaseParser(b.name("hl", i), f)
	case "reent":
		return LightBaseParser("reent", func(ctx ParserContext) (ParserContext, error) {
			r := b.rec(&ctx)
			in := r.parse(b, -(i + 1), n.Src)
			if b.cur != nil {
				b.cur = in
			}
			out, err := b.get(n.Ch[0], fresh)(ParserContext{Str: in.str, Slice: in.slice, Tag: in})
			if b.cur != nil {
				b.cur = r
			}
			x := reent{k: status(&out, err)}
			if x.k == "M" {
				x.p = []int{out.Position}
				x.a = snaps(out.AstStack)
			}
			ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "reent", Type: AstType_Any, Value: x})
			ctx.MatchStatus = MatchStatus_Matched
			return ctx, nil
		})
	}
	panic(errors.New("node " + n.Op))
}

// lazyInd: the order of calls, factory runs and entries into the built parser.
func (b *Builder) lazyInd(i int, n *Node) ParserFn {
	child := b.get
	p := Indirect(func() ParserFn {
		b.lazy.add("begin", i+1, 0)
		runtime.Gosched()
		q := child(n.Ch[0], false)
		b.lazy.add("end", i+1, 0)
		return func(ctx ParserContext) (ParserContext, error) {
			b.lazy.add("run", i+1, ctx.Tag.(*Rec).id)
			return q(ctx)
		}
	})
	return func(ctx ParserContext) (ParserContext, error) {
		b.lazy.add("call", i+1, ctx.Tag.(*Rec).id)
		return p(ctx)
	}
}

// behindBody: the parsers of an (unlogged) sequence, or one parser.
func (b *Builder) behindBody(n *Node, fresh bool) []ParserFn {
	if w := b.g[n.Ch[0]]; w.Op == "la" && !w.Lg {
		return b.children(w, fresh)
	}
	return []ParserFn{b.get(n.Ch[0], fresh)}
}

func (b *Builder) custom(i int, n *Node, fresh bool) ParserFn {
	props := []interface{}{}
	if !(n.Mn == 1 && n.Mx == 1 && i%2 == 0) {
		props = append(props, Times{Min: n.Mn, Max: n.Mx})
	}
	if n.Ng {
		props = append(props, Negative{})
	}
	if n.Ex {
		props = append(props, ThereExists{})
	}
	if n.Rw {
		props = append(props, Rewind{})
	}
	if i%3 == 1 { // the order of the properties has no meaning
		for a, z := 0, len(props)-1; a < z; a, z = a+1, z-1 {
			props[a], props[z] = props[z], props[a]
		}
	}
	var fn ParserImplFn
	if n.Fn != nil {
		fn = func(nm, bottom int, ctx ParserContext) (ParserContext, error) {
			if b.Logging && n.Lg {
				r, src, u := b.sees(&ctx)
				r.log("f", i+1, nm, bottom, ctx.Quantity, ctx.Position, astsJ(snaps(ctx.AstStack)), src, u)
			} else {
				b.rec(&ctx)
			}
			a := n.Fn.Rest
			if nm < 0 {
				a = n.Fn.Fin
			} else if ctx.Quantity < len(n.Fn.Rounds) {
				a = n.Fn.Rounds[ctx.Quantity]
			}
			return b.act(a, ctx)
		}
	}
	var tr []TransformerFn
	if len(n.Tr) > 0 {
		tr = b.transformers(i, n.Tr)
	}
	return BaseParser(b.name("custom", i), fn, props, b.children(n, fresh), tr)
}
