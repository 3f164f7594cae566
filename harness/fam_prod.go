package main

// C13: production rules.

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"

	. "github.com/shellyln/takenoco/base"
)

type prodRule struct {
	N  int
	Tr []Tr
}

type prodLevel struct {
	Rtol  bool
	Rules []prodRule
}

type prodCase struct {
	more   int // events
	g      []*Node
	levels []prodLevel
	chk    int
	list   []AstV
	ev     []L
	end    string
	warm   []AstV
	mid    []AstV   // used on this list from inside its first callback
	bg     [][]AstV // used on these lists by other goroutines at the same time
	nested bool     // used as a transformer of a parser
}

func (c *prodCase) setEnd(kind string) { c.end = kind }

func (c *prodCase) J(id int) D {
	g := L{}
	for _, n := range c.g {
		g = append(g, n.J())
	}
	lv := L{}
	for _, l := range c.levels {
		rs := L{}
		for _, r := range l.Rules {
			rs = append(rs, D{"n": r.N + 1, "tr": trsJ(r.Tr)})
		}
		lv = append(lv, D{"rtol": l.Rtol, "rules": rs})
	}
	return D{"id": id, "g": g, "levels": lv, "chk": c.chk + 1, "list": astsJ(c.list), "ev": anys(c.ev), "end": c.end}
}

func (c *prodCase) exec() {
	rec := newRec(30+c.more, 0)
	c.end = "done"
	defer func() { c.ev = rec.ev }()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(cutSignal); ok {
				c.end = "cut"
				return
			}
			rec.ev = append(rec.ev, L{"panic", fmt.Sprint(r)})
		}
	}()
	b := newBuilder(c.g, "prod", nil, false)
	// cur is the run in progress; an earlier run with another tag must leave nothing behind
	cur := rec
	b.cur = cur
	if c.bg != nil {
		b.cur = nil
	}
	var tr TransformerFn
	mid := c.mid
	// aside runs the rules on a list of their own
	aside := func(list []AstV) {
		was := cur
		own := newRec(30, 0)
		if c.bg == nil {
			cur, b.cur = own, own
			defer func() { cur, b.cur = was, was }()
		}
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(cutSignal); !ok {
					panic(p)
				}
			}
		}()
		tr(ParserContext{Tag: own, Str: "earlier"}, mks(list))
	}
	seen := func(ctx ParserContext) *Rec {
		r, ok := ctx.Tag.(*Rec)
		switch {
		case !ok:
			r = rec
			r.log("tag!")
		case c.bg == nil && r != cur:
			r = cur
			r.log("tag!")
		}
		if l := mid; l != nil && r == rec {
			mid = nil
			aside(l)
		}
		return r
	}
	ps := []Precedence{}
	for l, lv := range c.levels {
		p := Precedence{Rtol: lv.Rtol}
		for r, ru := range lv.Rules {
			l, r := l, r
			logged := func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				seen(ctx).log("t", l+1, r+1, ctx.Position, astsJ(snaps(asts)))
				return asts, nil
			}
			trs := []TransformerFn{logged}
			for _, t := range ru.Tr {
				trs = append(trs, baseTransformer(t))
			}
			p.Rules = append(p.Rules, Trans(b.get(ru.N, false), trs...))
		}
		ps = append(ps, p)
	}
	body := b.get(c.chk, false)
	chk := func(ctx ParserContext) (ParserContext, error) {
		r := seen(ctx)
		l := L{}
		for i := 0; i < ctx.Slice.Len(); i++ {
			l = append(l, snap(ctx.Slice.Get(i).(Ast)).J())
		}
		r.log("k", ctx.Position, l)
		return body(ctx)
	}
	tr = ProductionRule(ps, chk)
	if c.warm != nil {
		aside(c.warm)
	}
	if c.bg != nil {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for _, l := range c.bg {
			wg.Add(1)
			go func(l []AstV) {
				defer wg.Done()
				<-gate
				for k := 0; k < 5; k++ {
					aside(l)
				}
			}(l)
		}
		defer wg.Wait()
		close(gate)
		runtime.Gosched()
	}
	list := mks(c.list)
	var out AstSlice
	var err error
	if c.nested {
		o, e := Trans(Zero(), func(ctx ParserContext, _ AstSlice) (AstSlice, error) { return list, nil }, tr)(
			ParserContext{Str: "x", Tag: rec})
		out, err = o.AstStack, e
	} else {
		out, err = tr(ParserContext{Tag: rec, Str: "zz", SourcePosition: SourcePosition{Position: 1}, AstStack: AstSlice{{ClassName: "under"}}}, list)
	}
	if err != nil {
		rec.log("r", "E", errText(err), L{})
	} else {
		rec.log("r", "M", "", astsJ(snaps(out)))
	}
	rec.log("o", astsJ(snaps(list)))
}

var prodOps = []string{"n", "N", "~", "^", "*", "+", "-"}

func prodList(r *rand.Rand, ops []string, n int) []AstV {
	l := []AstV{}
	for i := 0; i < n; i++ {
		a := intAst(ops[r.Intn(len(ops))], i)
		a.P, a.Len, a.Op = i, 1, i%3
		l = append(l, a)
	}
	return l
}

type prodGen struct {
	r *rand.Rand
	g []*Node
}

func (p *prodGen) add(n *Node) int { p.g = append(p.g, n); return len(p.g) - 1 }
func (p *prodGen) cls(ss ...string) int {
	return p.add(&Node{Op: "acls", SS: ss})
}
func (p *prodGen) flat(ch ...int) int { return p.add(&Node{Op: "flat", Ch: ch}) }

func (p *prodGen) one() int {
	r := p.r
	switch r.Intn(12) {
	case 0:
		return p.add(&Node{Op: "aany"})
	case 1:
		return p.add(&Node{Op: "first", Ch: []int{p.cls(prodOps[r.Intn(7)]), p.one()}})
	case 2:
		return p.add(&Node{Op: []string{"la", "lan"}[r.Intn(2)], Ch: []int{p.cls(prodOps[r.Intn(7)])}})
	case 3:
		return p.add(&Node{Op: []string{"opt", "plus", "star"}[r.Intn(3)], Ch: []int{p.cls(prodOps[r.Intn(7)])}})
	case 4:
		if r.Intn(3) == 0 {
			return p.add(&Node{Op: "oend"})
		}
		return p.add(&Node{Op: "lb", Mn: 1, Mx: 1, Ch: []int{p.cls(prodOps[r.Intn(7)])}})
	case 5:
		if r.Intn(4) == 0 {
			return p.add(&Node{Op: "hl", On: -1, Raw: r.Intn(2) == 0, E: Act{R: "E", How: r.Intn(3), M: "E:rule"}})
		}
		fallthrough
	default:
		ss := []string{prodOps[r.Intn(7)]}
		if r.Intn(2) == 0 {
			ss = append(ss, prodOps[r.Intn(2)])
		}
		return p.cls(ss...)
	}
}

func (p *prodGen) tr() []Tr {
	r := p.r
	switch r.Intn(9) {
	case 0:
		return nil
	case 1:
		return []Tr{{T: "pick", N: 1 + r.Intn(3)}}
	case 2:
		return []Tr{{T: "erase"}}
	case 3:
		if r.Intn(3) == 0 {
			return []Tr{{T: "err", M: "E:tr"}}
		}
		return []Tr{{T: "pick", N: 2}}
	case 4:
		return []Tr{{T: "reduce", Cn: prodOps[r.Intn(7)]}}
	}
	return []Tr{{T: "reduce", Cn: "N"}}
}

// operator grammars: prefix, postfix and binary operators on levels of either direction
func operatorCase(r *rand.Rand, n int) *prodCase {
	p := &prodGen{r: r}
	c := &prodCase{nested: r.Intn(3) == 0}
	x := p.cls("n", "N")
	ops := []string{"~", "^", "*", "+", "-"}
	r.Shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
	red := []Tr{{T: "reduce", Cn: "N"}}
	var pre, bin, post []string
	for k := 0; k < len(ops); {
		lv := prodLevel{Rtol: r.Intn(2) == 0}
		for j := 0; j < 1+r.Intn(2) && k < len(ops); j++ {
			o := p.cls(ops[k])
			var ch []int
			switch {
			case ops[k] == "~":
				ch = []int{o, x}
				pre = append(pre, ops[k])
			case ops[k] == "-" && r.Intn(2) == 0: // prefix, unless an operand is before it
				pre = append(pre, ops[k])
				ch = []int{p.add(&Node{Op: "lbn", Mn: 1, Mx: 1, Ch: []int{x}}), o, x}
			case ops[k] == "+" && r.Intn(4) == 0:
				ch = []int{x, o}
				post = append(post, ops[k])
			default:
				ch = []int{x, o, x}
				bin = append(bin, ops[k])
			}
			lv.Rules = append(lv.Rules, prodRule{p.flat(ch...), red})
			k++
		}
		c.levels = append(c.levels, lv)
	}
	c.chk = p.flat(x, p.add(&Node{Op: "oend"}))
	// an expression, mostly
	names := []string{}
	for i := 0; i < n; i++ {
		for len(pre) > 0 && r.Intn(5) == 0 {
			names = append(names, pre[r.Intn(len(pre))])
		}
		names = append(names, "n")
		for len(post) > 0 && r.Intn(5) == 0 {
			names = append(names, post[r.Intn(len(post))])
		}
		if i < n-1 {
			names = append(names, bin[r.Intn(len(bin))])
		}
	}
	if r.Intn(5) == 0 {
		i := r.Intn(len(names))
		names[i] = prodOps[r.Intn(7)]
	}
	for i, s := range names {
		a := intAst(s, i)
		a.P, a.Len = i*2, 1
		c.list = append(c.list, a)
	}
	c.g = p.g
	return c
}

func randomProdCase(r *rand.Rand) *prodCase {
	p := &prodGen{r: r}
	c := &prodCase{nested: r.Intn(3) == 0}
	for l := r.Intn(4); l >= 0; l-- {
		lv := prodLevel{Rtol: r.Intn(2) == 0}
		for k := r.Intn(4); k > 0; k-- {
			ch := []int{}
			for j := r.Intn(4); j >= 0; j-- {
				ch = append(ch, p.one())
			}
			lv.Rules = append(lv.Rules, prodRule{p.flat(ch...), p.tr()})
		}
		c.levels = append(c.levels, lv)
	}
	ch := []int{}
	for j := r.Intn(3); j >= 0; j-- {
		ch = append(ch, p.one())
	}
	if r.Intn(2) == 0 {
		ch = append(ch, p.add(&Node{Op: "oend"}))
	}
	c.chk = p.flat(ch...)
	c.list = prodList(r, prodOps, r.Intn(9))
	c.g = p.g
	return c
}

func init() {
	fams["prod"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "prod", id)
		c := randomProdCase(r)
		if id%2 == 0 {
			c = operatorCase(r, 1+r.Intn(5))
		}
		if r.Intn(2) == 0 {
			c.warm = prodList(r, prodOps, r.Intn(5))
			if len(c.list) > 0 && r.Intn(2) == 0 {
				c.warm = c.list[:1+r.Intn(len(c.list))]
			}
		}
		if r.Intn(3) == 0 {
			c.mid = prodList(r, prodOps, 1+r.Intn(5))
			if len(c.list) > 0 && r.Intn(2) == 0 {
				c.mid = c.list[len(c.list)/2:]
			}
		}
		return c
	}
	fams["prodconc"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "prodconc", id)
		c := randomProdCase(r)
		if id%3 != 0 {
			c = operatorCase(r, 2+r.Intn(6))
		}
		for k := 1 + r.Intn(5); k > 0; k-- {
			switch r.Intn(3) {
			case 0:
				c.bg = append(c.bg, c.list)
			case 1:
				c.bg = append(c.bg, prodList(r, prodOps, 1+r.Intn(6)))
			default:
				c.bg = append(c.bg, c.list[:len(c.list)/2])
			}
		}
		return c
	}
	fams["prodbig"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "prodbig", id)
		if id%12 == 5 {
			c := operatorCase(r, 22+r.Intn(10))
			c.more = 100
			return c
		}
		return operatorCase(r, 8+r.Intn(10))
	}
}
