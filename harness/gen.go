package main

// Seeded random grammars and inputs.

import (
	"math/rand"
	"unicode/utf8"
)

type W struct {
	op string
	w  int
}

// Prof is a generation profile: what a property's sessions are made of.
type Prof struct {
	Name   string
	Comp   []W // composite parsers
	Leafs  []W
	Kind   string // "", "int", "any", "ast" for object sources
	Sigma  []string
	Size   [2]int
	Depth  int
	Runs   int
	Init   bool // non-empty initial stacks, stale status
	Errors int  // weight of raising errors, percent
	Rules  int
	Reent  bool
	AllTr  []string
	Log    string
	Budget int
	Panics int // percent
	Tags   int // weight of callbacks that set the user tag, percent
}

type gen struct {
	r      *rand.Rand
	p      *Prof
	nodes  []*Node
	left   int
	rules  []int
	nrec   int
	noRe   bool
	srcs   [][]int
	needFn bool
}

type info struct {
	prog bool // a match always consumes input
	net  int  // least number of ASTs added
}

type cctx struct {
	prog  bool // input has been consumed since the rule was entered
	avail int  // ASTs surely available above the base that must not be undercut
	rec   bool
}

const inf = 1 << 20

// upto gives mostly 0..n-1, now and then up to three times as much.
func (g *gen) upto(n int) int {
	if g.r.Intn(20) == 0 {
		n *= 3
	}
	return g.r.Intn(n)
}

func (g *gen) add(n *Node) int {
	n.Lg = g.r.Intn(100) < 88
	g.nodes = append(g.nodes, n)
	g.left--
	return len(g.nodes) - 1
}

func pick(r *rand.Rand, ws []W) string {
	t := 0
	for _, w := range ws {
		t += w.w
	}
	k := r.Intn(t)
	for _, w := range ws {
		k -= w.w
		if k < 0 {
			return w.op
		}
	}
	return ws[0].op
}

func (g *gen) ch() string { return g.p.Sigma[g.r.Intn(len(g.p.Sigma))] }

func (g *gen) text(max int) string {
	n := 1 + g.upto(max)
	s := ""
	for i := 0; i < n; i++ {
		s += g.ch()
	}
	return s
}

func (g *gen) rangesOf() [][2]int {
	n := 1 + g.upto(2)
	if g.r.Intn(12) == 0 {
		n += g.r.Intn(7)
	}
	rs := [][2]int{}
	for i := 0; i < n; i++ {
		c, _ := utf8.DecodeRuneInString(g.ch())
		lo, hi := int(c), int(c)
		switch g.r.Intn(4) {
		case 0:
			hi += g.r.Intn(3)
		case 1:
			lo -= g.r.Intn(2)
		}
		rs = append(rs, [2]int{lo, hi})
	}
	return rs
}

func (g *gen) someAst() AstV {
	a := g.plainAst()
	if g.r.Intn(6) == 0 {
		a.Op = rndOp(g.r)
	}
	return a
}

func (g *gen) plainAst() AstV {
	switch g.r.Intn(10) {
	case 0, 1:
		return intAst("i", g.r.Intn(4))
	case 7: // other kinds of values
		t := predTops()
		return t[g.r.Intn(len(t))]
	case 2, 3:
		return AstV{Cn: "n", Ty: "Nil", Vt: "nil", Op: g.r.Intn(3)}
	case 4: // values that are lists, alike in length
		a := AstV{Cn: "z", Ty: "ListOfAny", Vt: "slice"}
		for k := g.r.Intn(3); k > 0; k-- {
			a.Vb = append(a.Vb, g.r.Intn(2))
		}
		return a
	case 5:
		a := AstV{Cn: "z", Ty: "ListOfAst", Vt: "list"}
		for k := g.r.Intn(3); k > 0; k-- {
			a.Ch = append(a.Ch, intAst("i", g.r.Intn(2)))
		}
		return a
	case 6:
		return AstV{Cn: "z", Ty: "AstCons", Vt: "cons", Ch: []AstV{intAst("i", g.r.Intn(2)), intAst("i", g.r.Intn(2))}}
	}
	a := strAst("z", g.chOrX(), g.r.Intn(3), g.r.Intn(3))
	return a
}

func (g *gen) chOrX() string {
	if g.p.Kind != "" {
		return "x"
	}
	return g.ch()
}

var errNames = []string{"E:1", "E:2", "E:3"}

func (g *gen) errName() string { return errNames[g.r.Intn(len(errNames))] }

func (g *gen) oval() int {
	if g.p.Kind == "any" && g.r.Intn(8) == 0 {
		return -999 // nil
	}
	return g.r.Intn(4)
}

func (g *gen) ovals(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = g.oval()
	}
	return r
}

func (g *gen) act(kind string) Act {
	a := Act{R: kind, How: g.r.Intn(3)}
	if kind == "E" {
		a.M = g.errName()
	}
	if kind == "P" {
		return Act{R: "P", M: oneOf(g.r, "P:1", "P:2", "P:3")}
	}
	for n := g.upto(3); n > 0; n-- {
		a.As = append(a.As, g.someAst())
	}
	if g.r.Intn(100) < g.p.Tags {
		a.U = 100 + g.r.Intn(3)
	}
	return a
}

func (g *gen) errHere() bool { return g.r.Intn(100) < g.p.Errors }

func (g *gen) leaf() (int, info) {
	op := pick(g.r, g.p.Leafs)
	n := &Node{Op: op}
	in := info{true, 1}
	switch op {
	case "seq":
		n.S = g.text(2)
		if g.r.Intn(25) == 0 {
			n.S, in.prog = "", false
		}
	case "seqi":
		n.S = g.text(2)
	case "class", "classN":
		for k := 1 + g.upto(3); k > 0; k-- {
			n.SS = append(n.SS, g.text(2))
		}
	case "range", "rangeN", "classFn":
		n.RS = g.rangesOf()
	case "end", "start", "wb", "unmatched", "oend":
		in = info{false, 0}
	case "error":
		n.M = g.errName()
		in = info{false, 0}
	case "zero":
		for k := g.upto(3); k > 0; k-- {
			n.As = append(n.As, g.someAst())
		}
		in = info{false, len(n.As)}
	case "oseq":
		n.Vs = g.ovals(1 + g.upto(2) + g.upto(2))
		if g.r.Intn(20) == 0 {
			n.Vs, in.prog = nil, false
		}
	case "oclass", "oclassN":
		n.Vs = g.ovals(g.upto(3) + 1)
	case "ofn":
		switch g.r.Intn(4) {
		case 0:
			n.Pr = Pr{K: "ge", N: g.oval()}
		case 1:
			n.Pr = Pr{K: "all"}
		default:
			d := 2 + g.r.Intn(2)
			n.Pr = Pr{K: "mod", D: d, N: g.r.Intn(d)}
		}
	case "hl":
		in = info{false, 0}
		n.Raw = g.r.Intn(2) == 0
		if g.p.Kind == "" {
			n.On = int(g.ch()[0])
		} else {
			n.On = g.oval()
		}
		kinds := []string{"M", "U", "U", "M"}
		if g.errHere() {
			kinds = []string{"E", "E", "M"}
		}
		if g.r.Intn(100) < g.p.Panics {
			kinds = []string{"P", "M"}
		}
		n.T = g.act(kinds[g.r.Intn(len(kinds))])
		if n.On < 128 {
			n.T.Adv = g.r.Intn(2)
		}
		n.E = g.act(kinds[g.r.Intn(len(kinds))])
	}
	return g.add(n), in
}

func (g *gen) tokenLeaf() (int, info) {
	if g.p.Kind != "" {
		n := &Node{Op: "oclass", Vs: g.ovals(2)}
		if g.r.Intn(3) == 0 {
			n = &Node{Op: "oany"}
		}
		return g.add(n), info{true, 1}
	}
	n := &Node{Op: "seq", S: g.ch()}
	switch g.r.Intn(4) {
	case 0:
		n = &Node{Op: "class", SS: []string{g.ch(), g.ch()}}
	case 1:
		n = &Node{Op: "any"}
	}
	return g.add(n), info{true, 1}
}

var defaultTrs = []string{"id", "dup", "rev", "mark", "erase", "group", "pop", "xchg", "roll",
	"prepend", "push", "setop", "setcls", "setopcls", "setval", "concat", "trim", "trims", "trime"}

// transformers and the least length of their output for inputs of at least c
func (g *gen) trs(c int) ([]Tr, int) {
	names := g.p.AllTr
	if names == nil {
		names = defaultTrs
	}
	n := 1
	for g.r.Intn(3) == 0 && n < 6 {
		n++
	}
	if g.r.Intn(12) == 0 {
		n = 0
	}
	var ts []Tr
	for ; n > 0; n-- {
		t := Tr{T: names[g.r.Intn(len(names))], Lg: g.r.Intn(10) > 0}
		if g.errHere() && g.r.Intn(3) == 0 {
			t.T = []string{"err", "terr"}[g.r.Intn(2)]
		}
		switch t.T {
		case "err", "terr":
			t.M = g.errName()
		case "mark", "setcls":
			t.Cn = []string{"k1", "k2"}[g.r.Intn(2)]
		case "setopcls":
			t.Cn, t.N = "k3", g.r.Intn(5)
		case "setop":
			t.N = g.r.Intn(5)
		case "roll":
			t.N = g.r.Intn(9) - 4
			if g.r.Intn(10) == 0 {
				t.N *= 5
			}
		case "prepend", "push", "setval":
			t.Ast = g.someAst()
		}
		switch t.T {
		case "erase":
			c = 0
		case "group", "concat", "trim", "trims", "trime":
			c = 1
		case "pop":
			if c > 0 {
				c--
			}
		case "dup":
			c *= 2
		case "mark", "prepend", "push":
			c++
		}
		ts = append(ts, t)
	}
	return ts, c
}

func (g *gen) pr() Pr {
	ks := []string{"any", "never", "min", "cls", "str", "str", "is", "int", "rune", "uint", "float", "bool"}
	p := Pr{K: ks[g.r.Intn(len(ks))]}
	switch p.K {
	case "min":
		p.N = g.r.Intn(4)
	case "cls":
		p.Cn = []string{"Seq", "z", "Group", "i", "Any", "CharClass", "ObjClass"}[g.r.Intn(7)]
	case "str":
		for k := g.upto(3); k >= 0; k-- {
			p.Vs = append(p.Vs, bytesJ(g.chOrX()))
		}
	case "int", "rune", "uint", "float":
		for k := g.upto(3); k > 0; k-- {
			p.Vs = append(p.Vs, bytesJ(string(rune('0'+g.r.Intn(4)))))
		}
	case "bool":
		p.Vs = [][]int{{1}}
	case "is":
		for k := g.r.Intn(3); k >= 0; k-- {
			a := g.someAst()
			p.Is = append(p.Is, PredV{a.Vt, a.Vb, a.Ch})
		}
	}
	return p
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (g *gen) seqOf(d, n int, c cctx) ([]int, info) {
	var ch []int
	in := info{}
	for i := 0; i < n; i++ {
		k, x := g.expr(d-1, c)
		ch = append(ch, k)
		in.prog = in.prog || x.prog
		in.net += x.net
		c.prog = c.prog || x.prog
		if c.avail < inf {
			c.avail += x.net
		}
	}
	return ch, in
}

func (g *gen) nch() int {
	switch g.r.Intn(12) {
	case 0:
		return 0
	case 1, 2:
		return 1
	case 3, 4, 5, 6, 7:
		return 2
	case 8:
		return 3 + g.r.Intn(4)
	}
	return 3
}

// repeated is the context of a body that may run any number of times.
func (c cctx) repeated() cctx {
	if c.avail < inf {
		c.avail = 0
	}
	return c
}

// progressing body for unlimited repetition
func (g *gen) progBody(d int, c cctx) []int {
	c = c.repeated()
	ch, in := g.seqOf(d, 1+g.r.Intn(2), c)
	if !in.prog {
		k, _ := g.tokenLeaf()
		if g.r.Intn(2) == 0 && in.net >= 0 {
			ch = append(ch, k)
		} else {
			ch = append([]int{k}, ch...)
		}
	}
	return ch
}

func (g *gen) expr(d int, c cctx) (int, info) {
	if d <= 0 || g.left <= 0 || g.r.Intn(6) == 0 {
		return g.leaf()
	}
	op := pick(g.r, g.p.Comp)
	switch op {
	case "flat":
		ch, in := g.seqOf(d, g.nch(), c)
		return g.add(&Node{Op: op, Ch: ch}), in
	case "dbg":
		ch, in := g.seqOf(d, g.nch(), c)
		return g.add(&Node{Op: op, Ch: ch, S: oneOf(g.r, "a", "b", "a", "x y", ""), N: 1 + g.r.Intn(3)}), in
	case "group":
		c.avail = 0
		ch, in := g.seqOf(d, g.nch(), c)
		return g.add(&Node{Op: op, Ch: ch}), info{in.prog, 1}
	case "once":
		ch, in := g.seqOf(d, 1+g.r.Intn(2), c)
		return g.add(&Node{Op: op, Ch: ch}), in
	case "first":
		n := g.nch()
		in := info{n > 0, inf}
		var ch []int
		for i := 0; i < n; i++ {
			k, x := g.expr(d-1, c)
			ch = append(ch, k)
			in.prog = in.prog && x.prog
			in.net = min(in.net, x.net)
		}
		if n == 0 {
			in.net = 0
		}
		return g.add(&Node{Op: op, Ch: ch}), in
	case "la", "lan":
		c.avail = inf
		ch, _ := g.seqOf(d, 1+g.r.Intn(2), c)
		return g.add(&Node{Op: op, Ch: ch}), info{}
	case "lb", "lbn":
		mn := g.r.Intn(3)
		mx := mn + g.r.Intn(4) - 1
		if g.r.Intn(8) == 0 {
			mx = mn + 8
		}
		c.avail, c.rec = inf, false
		ch, _ := g.seqOf(d, 1+g.r.Intn(2), c)
		in := g.add(&Node{Op: "la", Ch: ch})
		g.nodes[in].Lg = false
		return g.add(&Node{Op: op, Ch: []int{in}, Mn: mn, Mx: mx}), info{}
	case "opt":
		c = c.repeated()
		ch, _ := g.seqOf(d, 1+g.r.Intn(2), c)
		return g.add(&Node{Op: op, Ch: ch}), info{}
	case "star":
		return g.add(&Node{Op: op, Ch: g.progBody(d, c)}), info{}
	case "plus":
		return g.add(&Node{Op: op, Ch: g.progBody(d, c)}), info{true, 0}
	case "rep":
		mn := g.upto(5) - 1
		mx := g.upto(6) - 1
		if g.r.Intn(3) > 0 && mx >= 0 && mn > mx {
			mx = mn + g.r.Intn(2)
		}
		mn, mx = g.below(mn), g.below(mx)
		if mx < 0 {
			return g.add(&Node{Op: op, Ch: g.progBody(d, c), Mn: mn, Mx: mx}), info{mn > 0, 0}
		}
		c = c.repeated()
		ch, in := g.seqOf(d, g.nch(), c)
		return g.add(&Node{Op: op, Ch: ch, Mn: mn, Mx: mx}), info{mn > 0 && mx > 0 && in.prog, 0}
	case "trans":
		c.avail = 0
		k, in := g.expr(d-1, c)
		ts, net := g.trs(max(0, in.net))
		return g.add(&Node{Op: op, Ch: []int{k}, Tr: ts}), info{in.prog, net}
	case "slice": // ToSlice over tokens of an object source
		var ch []int
		for i := g.r.Intn(3) + 1; i > 0; i-- {
			k, _ := g.tokenLeaf()
			ch = append(ch, k)
		}
		k := g.add(&Node{Op: []string{"star", "flat", "plus"}[g.r.Intn(3)], Ch: ch})
		return g.add(&Node{Op: "trans", Ch: []int{k}, Tr: []Tr{{T: "toslice", Lg: true}}}), info{false, 1}
	case "match":
		n := g.upto(4)
		if c.avail < n {
			n = c.avail
		}
		m := &Node{Op: op, N: n}
		worst := inf
		for k := g.upto(4); k > 0; k-- {
			ts, out := g.trs(0)
			m.Cases = append(m.Cases, CaseV{g.pr(), ts})
			worst = min(worst, out-n)
		}
		if worst == inf {
			worst = 0
		}
		return g.add(m), info{false, worst}
	case "custom":
		return g.custom(d, c)
	case "if":
		k, in := g.expr(d-1, c)
		return g.add(&Node{Op: op, Ch: []int{k}, Cond: g.r.Intn(2) == 0}), in
	case "ind":
		if c.rec && c.prog && len(g.rules) > 0 && g.r.Intn(3) > 0 {
			k := g.add(&Node{Op: op, Ch: []int{g.rules[g.r.Intn(len(g.rules))]}})
			g.nrec++
			return k, info{true, 0}
		}
		k, in := g.expr(d-1, c)
		return g.add(&Node{Op: op, Ch: []int{k}}), in
	case "reent":
		if g.noRe || len(g.rules) == 0 {
			return g.leaf()
		}
		k := g.add(&Node{Op: op, Ch: []int{g.rules[len(g.rules)-1]}, Src: g.r.Intn(2)})
		return k, info{false, 1}
	}
	panic(op)
}

// below makes some of the -1 other negative bounds.
func (g *gen) below(x int) int {
	if x < 0 && g.r.Intn(3) == 0 {
		return -2 - g.r.Intn(3)
	}
	return x
}

func (g *gen) custom(d int, c cctx) (int, info) {
	n := &Node{Op: "custom", Mn: g.r.Intn(5) - 1, Mx: g.r.Intn(5) - 1}
	if g.r.Intn(3) == 0 {
		n.Mn, n.Mx = 1, 1
	}
	n.Mn, n.Mx = g.below(n.Mn), g.below(n.Mx)
	n.Ng, n.Ex, n.Rw = g.r.Intn(4) == 0, g.r.Intn(5) < 2, g.r.Intn(4) == 0
	if g.r.Intn(3) == 0 {
		n.Tr, _ = g.trs(0)
		c.avail = 0
	}
	c = c.repeated()
	if n.Ex {
		for i := g.nch(); i > 0; i-- {
			k, _ := g.expr(d-1, c)
			n.Ch = append(n.Ch, k)
		}
	} else {
		n.Ch, _ = g.seqOf(d, g.nch(), c)
	}
	rnd := func() Act {
		if g.r.Intn(100) < g.p.Panics {
			return g.act("P")
		}
		switch x := g.r.Intn(100); {
		case x < g.p.Errors:
			return g.act("E")
		case x < 75:
			return g.act("M")
		}
		return g.act("U")
	}
	if g.r.Intn(3) > 0 {
		f := &Fn{Rest: Act{R: "M"}, Fin: Act{R: "M"}}
		for k := g.r.Intn(4); k > 0; k-- {
			if g.r.Intn(2) == 0 {
				f.Rounds = append(f.Rounds, rnd())
			} else {
				f.Rounds = append(f.Rounds, Act{R: "M"})
			}
		}
		if g.r.Intn(2) == 0 {
			f.Rest = rnd()
		}
		if g.r.Intn(2) == 0 {
			f.Fin = rnd()
		}
		n.Fn = f
	}
	if n.Mx < 0 && (n.Fn == nil || n.Fn.Rest.R == "M") {
		// needs rounds that consume
		if n.Ex {
			k := g.add(&Node{Op: "flat", Ch: g.progBody(1, c)})
			n.Ch = []int{k}
		} else {
			n.Ch = g.progBody(d, c)
		}
	}
	return g.add(n), info{}
}

// sample derives a text from the grammar, ignoring predicates.
func (g *gen) sample(i, d int, out []byte, obj *[]int) []byte {
	n := g.nodes[i]
	if d > 40 || len(out) > 60 || len(*obj) > 40 {
		return out
	}
	emit := func(s string) { out = append(out, s...) }
	switch n.Op {
	case "any", "rangeN", "classN":
		emit(g.ch())
	case "seq":
		emit(n.S)
	case "seqi":
		s := []byte(n.S)
		for k := range s {
			if g.r.Intn(2) == 0 && s[k] >= 'a' && s[k] <= 'z' {
				s[k] -= 32
			}
		}
		emit(string(s))
	case "class":
		emit(n.SS[g.r.Intn(len(n.SS))])
	case "range", "classFn":
		r := n.RS[g.r.Intn(len(n.RS))]
		emit(string(rune(r[0] + g.r.Intn(r[1]-r[0]+1))))
	case "oany", "oclassN", "ofn":
		*obj = append(*obj, g.oval())
	case "oclass":
		if len(n.Vs) > 0 {
			*obj = append(*obj, n.Vs[g.r.Intn(len(n.Vs))])
		}
	case "oseq":
		*obj = append(*obj, n.Vs...)
	case "ws", "wsnl", "lbk", "alpha", "num", "alnum", "bin", "oct", "hex":
		m := map[string]string{"ws": " ", "wsnl": "\t", "lbk": "\n", "alpha": "a", "num": "9", "alnum": "b", "bin": "1", "oct": "7", "hex": "f"}
		emit(m[n.Op])
	case "hl":
		if g.p.Kind == "" && n.T.R == "M" && n.On >= 0 && n.On < 128 {
			out = append(out, byte(n.On))
		} else if g.p.Kind != "" {
			*obj = append(*obj, n.On)
		}
	case "first":
		if len(n.Ch) > 0 {
			return g.sample(n.Ch[g.r.Intn(len(n.Ch))], d+1, out, obj)
		}
	case "la", "lan", "lb", "lbn", "reent":
		if g.r.Intn(4) == 0 && (n.Op == "la") {
			for _, k := range n.Ch {
				out = g.sample(k, d+1, out, obj)
			}
		}
	case "opt", "star", "plus", "rep", "custom":
		lo, hi := 0, 1
		switch n.Op {
		case "star":
			hi = 3
		case "plus":
			lo, hi = 1, 3
		case "rep", "custom":
			lo, hi = n.Mn-1, n.Mx+1
			if n.Mx < 0 {
				hi = n.Mn + 3
			}
			if lo < 0 {
				lo = 0
			}
			if hi < lo {
				hi = lo
			}
		}
		for k := lo + g.r.Intn(hi-lo+1); k > 0; k-- {
			if n.Ex && len(n.Ch) > 0 {
				out = g.sample(n.Ch[g.r.Intn(len(n.Ch))], d+1, out, obj)
				continue
			}
			for _, c := range n.Ch {
				out = g.sample(c, d+1, out, obj)
			}
		}
	default:
		for _, c := range n.Ch {
			out = g.sample(c, d+1, out, obj)
		}
	}
	return out
}

func (g *gen) mutate(s string) string {
	for k := g.r.Intn(3); k >= 0; k-- {
		rs := []string{}
		for i := 0; i < len(s); {
			_, l := utf8.DecodeRuneInString(s[i:])
			rs = append(rs, s[i:i+l])
			i += l
		}
		i := 0
		if len(rs) > 0 {
			i = g.r.Intn(len(rs))
		}
		switch g.r.Intn(4) {
		case 0:
			if len(rs) > 0 {
				rs = append(rs[:i], rs[i+1:]...)
			}
		case 1:
			rs = append(rs[:i], append([]string{g.ch()}, rs[i:]...)...)
		case 2:
			if len(rs) > 0 {
				rs[i] = g.ch()
			}
		case 3:
			rs = rs[:i]
		}
		s = ""
		for _, x := range rs {
			s += x
		}
	}
	return s
}

func (g *gen) input(root int) []int {
	if g.p.Kind != "" {
		var o []int
		switch g.r.Intn(4) {
		case 0:
			return g.ovals(g.r.Intn(6))
		}
		g.sample(root, 0, nil, &o)
		if g.r.Intn(2) == 0 && len(o) > 0 {
			switch g.r.Intn(3) {
			case 0:
				o = o[:g.r.Intn(len(o))]
			case 1:
				o[g.r.Intn(len(o))] = g.oval()
			case 2:
				o = append(o, g.oval())
			}
		}
		return o
	}
	switch g.r.Intn(8) {
	case 0:
		return bytesJ("")
	case 1:
		return bytesJ(g.text(6))
	case 2, 3, 4:
		return bytesJ(g.mutate(string(g.sample(root, 0, nil, new([]int)))))
	}
	return bytesJ(string(g.sample(root, 0, nil, new([]int))))
}

func genSession(r *rand.Rand, p *Prof) *Session {
	g := &gen{r: r, p: p}
	g.left = p.Size[0] + r.Intn(p.Size[1]-p.Size[0]+1)
	// rules: placeholders first, so that they can be referred to
	for i := 0; i < p.Rules; i++ {
		k := g.add(&Node{Op: "flat"})
		g.rules = append(g.rules, k)
	}
	per := g.left / (p.Rules + 1)
	for i := range g.rules {
		all := g.left
		g.left = per
		g.noRe = true
		k0, _ := g.tokenLeaf()
		ch, _ := g.seqOf(p.Depth, 1+r.Intn(2), cctx{true, 1, true})
		g.nodes[g.rules[i]].Ch = append([]int{k0}, ch...)
		g.left = all - per
	}
	g.noRe = !p.Reent
	root, _ := g.expr(p.Depth, cctx{false, inf, true})
	if len(g.nodes[root].Ch) == 0 || (len(g.rules) > 0 && r.Intn(2) == 0) {
		if len(g.rules) > 0 {
			root = g.add(&Node{Op: "flat", Ch: []int{g.rules[0], root}})
		} else {
			k, _ := g.expr(p.Depth, cctx{false, inf, true})
			root = g.add(&Node{Op: []string{"flat", "first"}[r.Intn(2)], Ch: []int{root, k}})
		}
	}
	if r.Intn(4) == 0 { // fresh construction inside the factories
		for _, n := range g.nodes {
			n.Fresh = true
		}
	}
	s := &Session{G: g.nodes, ObjKind: p.Kind, Log: p.Log, Budget: p.Budget, Note: p.Name}
	if s.Log == "" {
		s.Log = "all"
	}
	for k := 0; k < p.Runs; k++ {
		s.Srcs = append(s.Srcs, g.input(root))
	}
	for len(s.Srcs) < 2 {
		s.Srcs = append(s.Srcs, g.input(root))
	}
	seen := map[int]int{}
	for k := 0; k < p.Runs; k++ {
		run := Run{N: root, S: r.Intn(len(s.Srcs))}
		seen[run.S]++
		if r.Intn(2) == 0 {
			run.Cap = r.Intn(40)
		}
		if p.Init {
			for n := r.Intn(4); n > 0; n-- {
				run.A = append(run.A, g.someAst())
			}
			// a status left behind by an earlier parse
			run.Ms = pickStatus(r)
			run.Qty = r.Intn(3)
			if r.Intn(4) == 0 {
				run.P = boundary(r, s.Srcs[run.S], p.Kind)
			}
		}
		s.Runs = append(s.Runs, run)
	}
	return s
}

func boundary(r *rand.Rand, src []int, kind string) int {
	if kind != "" {
		return r.Intn(len(src) + 1)
	}
	t := toStr(src)
	var ps []int
	for i := 0; i <= len(t); {
		ps = append(ps, i)
		if i == len(t) {
			break
		}
		_, l := utf8.DecodeRuneInString(t[i:])
		i += l
	}
	return ps[r.Intn(len(ps))]
}
