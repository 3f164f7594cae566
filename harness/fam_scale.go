package main

// Parametric grammars at sizes far above those of the random sessions; Scale.tla gives their outcome in closed form.

import (
	"strings"

	. "github.com/shellyln/takenoco/base"
)

type scaleSize struct{ n, m int }

// scaleKind: the grammar for the sizes, its root, the text or elements and the stack to start with.
type scaleKind struct {
	obj   string
	sizes func(tier string) []scaleSize
	make  func(g *scaleG, n, m int) (root int, src []int, a0 []AstV)
}

type scaleG struct{ g []*Node }

func (s *scaleG) add(op string, ch ...int) int {
	s.g = append(s.g, &Node{Op: op, Ch: ch})
	return len(s.g) - 1
}
func (s *scaleG) seq(t string) int {
	i := s.add("seq")
	s.g[i].S = t
	return i
}
func (s *scaleG) set(i int, f func(n *Node)) int { f(s.g[i]); return i }

func as(n int) []int { return bytesJ(strings.Repeat("a", n)) }

// grow: every small size, sizes around powers of two where widths and buffers end, and a few large ones.
func grow(big int, more ...int) func(string) []scaleSize {
	return func(tier string) []scaleSize {
		var l []scaleSize
		for n := 0; n <= 4; n++ {
			l = append(l, scaleSize{n, 0})
		}
		for _, n := range []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 5000} {
			if n <= big {
				l = append(l, scaleSize{n, 0})
			}
		}
		for _, n := range more {
			l = append(l, scaleSize{n, 0})
		}
		if tier == "thorough" {
			for n := 5; n < 40; n++ {
				l = append(l, scaleSize{n, 0})
			}
			for _, n := range []int{4096, 8191, 10000, 20000, 32769, 65537} {
				if n <= 8*big {
					l = append(l, scaleSize{n, 0})
				}
			}
		}
		return l
	}
}

// pairs: each size with every fitting second one: small ones completely, else around the ends.
func pairs(f func(string) []scaleSize, ms func(n int) []int) func(string) []scaleSize {
	return func(tier string) []scaleSize {
		var l []scaleSize
		for _, s := range f(tier) {
			if s.n <= 4 {
				for m := 0; m <= 6; m++ {
					l = append(l, scaleSize{s.n, m})
				}
				continue
			}
			for _, m := range ms(s.n) {
				l = append(l, scaleSize{s.n, m})
			}
		}
		return l
	}
}

func from(min int, f func(string) []scaleSize) func(string) []scaleSize {
	return func(tier string) (l []scaleSize) {
		for _, s := range f(tier) {
			if s.n >= min {
				l = append(l, s)
			}
		}
		return
	}
}

func around(n int) []int { return []int{n - 1, n, n + 1} }
func middle(n int) []int { return []int{0, n / 2, n - 1, n} }
func fives(n int) []int  { return []int{n, n - 1, n - 2, n - 3, 2} }
func inside(n int) []int { return []int{1, n / 3, n - 1, n} }

var noFin = Act{R: "M"}

func fourDigits(i int) string {
	return string([]byte{byte('0' + i/1000%10), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
}

func mod7(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = (i + 1) % 7
	}
	return r
}

// chainOf wraps the node n times.
func (s *scaleG) chainOf(op string, n, i int) int {
	for ; n > 0; n-- {
		i = s.add(op, i)
	}
	return i
}

var scaleKinds = map[string]scaleKind{
	"star": {"", grow(5000, 40000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.add("star", g.seq("a")), as(n), nil
	}},
	"bounds": {"", pairs(grow(5000, 33000), fives), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("rep", g.seq("a")), func(x *Node) { x.Mn, x.Mx = m, m+2 }), as(n), nil
	}},
	"pairs": {"", grow(5000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.add("star", g.add("flat", g.seq("a"), g.seq("a"))), as(n), nil
	}},
	"endfn": {"", pairs(grow(2049), inside), func(g *scaleG, n, m int) (int, []int, []AstV) {
		fn := &Fn{Rest: Act{R: "U"}, Fin: noFin}
		for i := 0; i < m; i++ {
			fn.Rounds = append(fn.Rounds, noFin)
		}
		return g.set(g.add("custom", g.seq("a")), func(x *Node) { x.Mn, x.Mx, x.Fn = 0, -1, fn }), as(n), nil
	}},
	"alts": {"", from(1, pairs(grow(2049), middle)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		var ch []int
		for i := 0; i < n; i++ {
			ch = append(ch, g.seq(fourDigits(i)))
		}
		return g.add("first", ch...), bytesJ(fourDigits(m)), nil
	}},
	"parts": {"", from(1, pairs(grow(2049), around)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		var ch []int
		for i := 0; i < n; i++ {
			ch = append(ch, g.seq("a"))
		}
		return g.add("flat", ch...), as(m), nil
	}},
	"flats": {"", grow(5000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.chainOf("flat", n, g.seq("a")), as(2), nil
	}},
	"groups": {"", grow(0, 60, 120), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.chainOf("group", n, g.seq("a")), as(2), nil
	}},
	"lazies": {"", grow(5000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.chainOf("ind", n, g.seq("a")), as(2), nil
	}},
	"recursion": {"", pairs(grow(5000, 20000), around), func(g *scaleG, n, m int) (int, []int, []AstV) {
		f, i := g.add("flat"), g.add("ind")
		r := g.add("first", f, g.seq("x"))
		g.g[i].Ch = []int{r}
		g.g[f].Ch = []int{g.seq("("), i, g.seq(")")}
		return r, bytesJ(strings.Repeat("(", n) + "x" + strings.Repeat(")", m)), nil
	}},
	"behind":    {"", pairs(grow(5000, 40000), around), behindOf("lb")},
	"behindnot": {"", pairs(grow(5000, 40000), around), behindOf("lbn")},
	"ahead": {"", grow(5000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.chainOf("la", 1, g.add("star", g.chainOf("la", 1, g.seq("b")), g.seq("b"))), as(n), nil
	}},
	"negations": {"", grow(2049), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.chainOf("lan", n, g.chainOf("la", 1, g.seq("a"))), as(1), nil
	}},
	"fold": {"", from(1, pairs(grow(5000), inside)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		x := g.set(g.add("match"), func(x *Node) {
			x.N, x.Cases = m, []CaseV{{Pr{K: "never"}, nil}, {Pr{K: "min", N: n}, []Tr{{T: "group"}}}}
		})
		return g.add("flat", g.add("star", g.seq("a")), x), as(n), nil
	}},
	"foldfail": {"", from(1, pairs(grow(5000), inside)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		x := g.set(g.add("match"), func(x *Node) { x.N, x.Cases = m, []CaseV{{Pr{K: "min", N: 1}, []Tr{{T: "erase"}}}} })
		s := g.add("star", g.seq("a"))
		return g.add("first", g.add("flat", s, x, g.seq("x")), s), as(n), nil
	}},
	"chain": {"", grow(2049), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("trans", g.seq("a")), func(x *Node) {
			for i := 0; i < n; i++ {
				x.Tr = append(x.Tr, Tr{T: "mark", Cn: "k"})
			}
		}), as(1), nil
	}},
	"roll": {"", from(1, pairs(grow(5000), inside)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("trans", g.add("star", g.seq("a"))), func(x *Node) { x.Tr = []Tr{{T: "roll", N: m}} }), as(n), nil
	}},
	"concat": {"", from(1, grow(5000)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("trans", g.add("plus", g.add("any"))), func(x *Node) { x.Tr = []Tr{{T: "concat"}} }),
			bytesJ(strings.Repeat("aé世", n)), nil
	}},
	"concatfirst": {"", grow(5000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("trans", g.add("flat", g.seq("a"), g.add("star", g.add("any")))), func(x *Node) { x.Tr = []Tr{{T: "concat"}} }), as(n + 1), nil
	}},
	"long": {"", from(1, pairs(grow(5000, 40000), around)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.seq(strings.Repeat("a", n)), as(m), nil
	}},
	"longdiff": {"", from(1, pairs(grow(5000), func(n int) []int { return []int{0, n / 2, n - 1} })),
		func(g *scaleG, n, m int) (int, []int, []AstV) {
			t := as(n)
			t[m%n] = 'b'
			return g.seq(strings.Repeat("a", n)), t, nil
		}},
	"strings": {"", from(1, pairs(grow(1025, 5000), middle)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("class"), func(x *Node) {
			for i := 0; i < n; i++ {
				x.SS = append(x.SS, fourDigits(i))
			}
		}), bytesJ(fourDigits(m)), nil
	}},
	"ranges": {"", from(1, pairs(grow(2049), middle)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("range"), func(x *Node) {
			for i := 0; i < n; i++ {
				x.RS = append(x.RS, [2]int{0x4e00 + 2*i, 0x4e00 + 2*i})
			}
		}), bytesJ(string(rune(0x4e00 + 2*m))), nil
	}},
	"below": {"", grow(5000, 40000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		var a0 []AstV
		for i := 1; i <= n; i++ {
			a0 = append(a0, intAst("i", i%10))
		}
		x := g.set(g.add("match"), func(x *Node) { x.N, x.Cases = 1, []CaseV{{Pr{K: "any"}, []Tr{{T: "group"}}}} })
		return g.add("first", g.add("flat", g.add("star", g.seq("a")), g.set(g.add("match"), func(x *Node) {
			x.N, x.Cases = n+1, []CaseV{{Pr{K: "any"}, []Tr{{T: "erase"}}}}
		}), g.seq("x")), g.add("flat", g.add("star", g.seq("a")), x)), as(2), a0
	}},
	"undo": {"", pairs(grow(5000), middle), func(g *scaleG, n, m int) (int, []int, []AstV) {
		r := g.set(g.add("rep", g.seq("a")), func(x *Node) { x.Mn, x.Mx = m, m })
		return g.add("first", g.add("flat", g.add("star", g.seq("a")), g.seq("x")), r), as(n), nil
	}},
	"error": {"", grow(5000, 40000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		e := g.set(g.add("error"), func(x *Node) { x.M = "E:1" })
		return g.add("first", g.add("star", g.add("first", g.seq("a"), e)), g.seq("a")), as(n), nil
	}},
	"errorshort": {"", grow(5000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		e := g.set(g.add("error"), func(x *Node) { x.M = "E:1" })
		x := g.set(g.add("rep", g.add("first", g.seq("a"), e)), func(x *Node) { x.Mn, x.Mx = 0, n })
		return g.add("first", x, e), as(n), nil
	}},
	"erase": {"", grow(5000, 70000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		t := g.set(g.add("trans", g.seq("a")), func(x *Node) { x.Tr = []Tr{{T: "erase"}} })
		return g.add("flat", g.add("star", t), g.seq("b")), bytesJ(strings.Repeat("a", n) + "b"), nil
	}},
	"objects": {"any", grow(5000, 40000), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.add("star", g.add("oany")), mod7(n), nil
	}},
	"objseq": {"any", from(1, pairs(grow(5000, 40000), around)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("oseq"), func(x *Node) { x.Vs = mod7(n) }), mod7(m), nil
	}},
	"objdiff": {"any", from(1, pairs(grow(5000), func(n int) []int { return []int{0, n / 2, n - 1} })),
		func(g *scaleG, n, m int) (int, []int, []AstV) {
			t := mod7(n)
			t[m%n] = (t[m%n] + 1) % 7
			return g.set(g.add("oseq"), func(x *Node) { x.Vs = mod7(n) }), t, nil
		}},
	"objclass": {"int", from(1, pairs(grow(5000), middle)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("oclass"), func(x *Node) {
			for i := 0; i < n; i++ {
				x.Vs = append(x.Vs, i)
			}
		}), []int{m}, nil
	}},
	"slice": {"any", from(1, grow(5000)), func(g *scaleG, n, m int) (int, []int, []AstV) {
		return g.set(g.add("trans", g.add("star", g.add("oany"))), func(x *Node) { x.Tr = []Tr{{T: "toslice"}} }), mod7(n), nil
	}},
	"again": {"", func(tier string) []scaleSize {
		l := []scaleSize{{0, 1}, {1, 3}, {3, 300}, {5, 5000}}
		if tier == "thorough" {
			l = append(l, scaleSize{7, 70000})
		}
		return l
	}, func(g *scaleG, n, m int) (int, []int, []AstV) {
		e := g.set(g.add("error"), func(x *Node) { x.M = "E:1" })
		st := g.add("star", g.add("ind", g.seq("a")))
		return g.add("first", g.add("flat", g.seq("e"), e), g.add("flat", st, g.add("end"))), as(n), nil
	}},
}

func behindOf(op string) func(g *scaleG, n, m int) (int, []int, []AstV) {
	return func(g *scaleG, n, m int) (int, []int, []AstV) {
		t := g.set(g.add("trans", g.add("star", g.seq("a"))), func(x *Node) { x.Tr = []Tr{{T: "erase"}} })
		b := g.set(g.add(op, g.add("la", g.seq("x"))), func(x *Node) { x.Mn, x.Mx = 0, m })
		return g.add("flat", g.seq("x"), t, b), bytesJ("x" + strings.Repeat("a", n)), nil
	}
}

// scaleOf makes the family of the kinds.
func scaleOf(fam string, kinds ...string) {
	type one struct {
		kind string
		scaleSize
	}
	list := func(tier string) (l []one) {
		for _, k := range kinds {
			for _, s := range scaleKinds[k].sizes(tier) {
				l = append(l, one{k, s})
			}
		}
		return
	}
	const chunk = 4
	famSize[fam] = func(_ int64, tier string) int { return (len(list(tier)) + chunk - 1) / chunk }
	fams[fam] = func(_ int64, tier string, id int) TCase {
		c := &Cases{}
		all := list(tier)
		step := (len(all) + chunk - 1) / chunk
		for i := id; i < len(all); i += step {
			scaleCase(c, all[i].kind, all[i].n, all[i].m)
		}
		return c
	}
}

func scaleCase(c *Cases, kind string, n, m int) {
	sk := scaleKinds[kind]
	g := &scaleG{}
	root, src, a0 := sk.make(g, n, m)
	s := &Session{G: g.g, ObjKind: sk.obj, Srcs: [][]int{src}}
	d := D{"kind": kind, "n": n, "m": m, "small": 0, "node": root + 1}
	if n <= 4 && m <= 10 {
		j := s.J(0)
		d["small"], d["sess"], d["a0"] = 1, D{"g": j["g"], "src": j["src"], "fold": L{}}, astsJ(a0)
	}
	c.add(d, func(d D) {
		b := newBuilder(s.G, s.ObjKind, s.Srcs, false)
		rec := newRec(1<<30, 0).parse(b, 1, 0)
		b.cur = rec
		p := b.get(root, false)
		run := func() (ParserContext, error) {
			return p(rec.start(Run{A: a0}, n+m))
		}
		if kind == "again" {
			for i := 1; i < m; i++ {
				ctx := rec.start(Run{}, i)
				ctx.Str = []string{"aaab", "e", "aa", ""}[i%4]
				p(ctx)
			}
		}
		out, err := run()
		d["k"], d["e"], d["p"], d["a"] = status(&out, err), errText(err), out.Position, L{}
		if d["k"] == "M" {
			d["a"] = astsJ(snaps(out.AstStack))
		}
	})
}

func init() {
	scaleOf("scale-choice", "alts", "parts", "flats")
	scaleOf("scale-rep", "star", "bounds", "pairs")
	scaleOf("scale-back", "undo", "foldfail")
	scaleOf("scale-err", "error", "errorshort")
	scaleOf("scale-look", "behind", "behindnot", "ahead", "negations")
	scaleOf("scale-trans", "chain", "groups", "erase")
	scaleOf("scale-list", "roll", "concat", "concatfirst", "slice")
	scaleOf("scale-match", "fold", "foldfail")
	scaleOf("scale-text", "long", "longdiff", "strings", "ranges")
	scaleOf("scale-span", "erase", "star", "concat")
	scaleOf("scale-obj", "objects", "objseq", "objdiff", "objclass")
	scaleOf("scale-again", "again")
	scaleOf("scale-custom", "endfn")
	scaleOf("scale-below", "below")
	scaleOf("scale-lazy", "recursion", "lazies")
}
