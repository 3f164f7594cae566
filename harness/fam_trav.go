package main

// C14: traversal.

import (
	"fmt"
	"math/rand"

	. "github.com/shellyln/takenoco/base"
)

type travThere struct {
	Id, V int
	Md    string
	Rw    L
	rw    func(a *Ast)
	Er    string
}

type travBack struct {
	Id, V  int
	Op     string
	Pc     int
	Rw     L
	rw     func(a *Ast)
	Th, Er string
}

type travCase struct {
	tree  AstV
	there []travThere
	max   int // events
	back  []travBack
	ev    []L
	end   string
}

func (c *travCase) setEnd(kind string) { c.end = kind }

func (c *travCase) J(id int) D {
	th, bk := L{}, L{}
	for _, t := range c.there {
		th = append(th, D{"id": t.Id, "v": t.V, "d": D{"md": t.Md, "rw": t.Rw, "er": t.Er}})
	}
	for _, b := range c.back {
		bk = append(bk, D{"id": b.Id, "v": b.V, "d": D{"op": b.Op, "pc": b.Pc, "rw": b.Rw, "th": b.Th, "er": b.Er}})
	}
	return D{"id": id, "tree": c.tree.J(), "there": th, "back": bk, "ev": anys(c.ev), "end": c.end}
}

var travModes = map[string]WayThereMode{"none": WayThereMode_None, "lazy": WayThereMode_Lazy, "last": WayThereMode_Last}
var travOps = map[string]TraverseOpcode{"nop": TraverseOpcode_Nop, "break": TraverseOpcode_Break, "continue": TraverseOpcode_Continue}

func (c *travCase) exec() {
	if c.max == 0 {
		c.max = 300
	}
	rec := newRec(c.max, 0)
	c.end = "done"
	defer func() { c.ev = rec.ev }()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(cutSignal); ok {
				c.end = "cut"
				return
			}
			rec.ev = append(rec.ev, L{"panic", fmt.Sprint(r)})
		}
	}()
	vis := map[int]int{}
	errs := map[string]error{}
	mkErr := func(s string) error {
		if s == "" {
			return nil
		}
		if errs[s] == nil {
			errs[s] = &hErr{s}
		}
		return errs[s]
	}
	errName := func(e error) string {
		if e == nil {
			return ""
		}
		if s := errText(e); errs[s] == e {
			return s
		}
		return "?" + e.Error()
	}
	thName := func(v interface{}) string {
		if v == nil {
			return ""
		}
		if s, ok := v.(string); ok {
			return s
		}
		return fmt.Sprint("?", v)
	}
	user := new(int)
	ctxOk := func(x interface{}) {
		if x != interface{}(user) {
			rec.log("context!")
		}
	}
	root := mk(c.tree)
	out, pc, op, th, err := root.Traverse(
		func(x interface{}, a Ast) (Ast, WayThereMode, error) {
			ctxOk(x)
			rec.log("th", snap(a).J())
			id := int(a.OpCode)
			vis[id]++
			for k := range c.there {
				if t := &c.there[k]; t.Id == id && t.V == vis[id] {
					if t.Er != "" {
						return a, WayThereMode_None, mkErr(t.Er)
					}
					if t.rw != nil {
						t.rw(&a)
					}
					return a, travModes[t.Md], nil
				}
			}
			return a, WayThereMode_None, nil
		},
		func(x interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			ctxOk(x)
			rec.log("bk", snap(a).J())
			id := int(a.OpCode)
			for k := range c.back {
				if t := &c.back[k]; t.Id == id && t.V == vis[id] {
					if t.rw != nil {
						t.rw(&a)
					}
					var thrown interface{}
					if t.Th != "" {
						thrown = t.Th
					}
					return a, int16(t.Pc), travOps[t.Op], thrown, mkErr(t.Er)
				}
			}
			return a, 0, TraverseOpcode_Nop, nil, nil
		},
		func(x interface{}, a Ast, child Ast, thrown interface{}, err error) {
			ctxOk(x)
			rec.log("er", int(a.OpCode), a.ClassName, opOf(child)%100000, thName(thrown), errName(err))
		},
		user)
	if th != nil || err != nil {
		rec.log("f", thName(th), errName(err))
	} else {
		name := "?"
		for n, o := range travOps {
			if o == op {
				name = n
			}
		}
		rec.log("r", snap(out).J(), name, int(pc))
	}
	rec.log("o", snap(root).J())
}

type travGen struct {
	r  *rand.Rand
	id int
	c  *travCase
	// per node: index in its list and length of the list (-1: no list)
	at map[int][2]int
}

func (g *travGen) tree(depth, size int) AstV {
	g.id++
	r := g.r
	a := AstV{Cn: string(rune('a' + r.Intn(3))), Op: g.id + 100000*max(0, r.Intn(8)-4), P: r.Intn(5), Len: r.Intn(3)}
	switch k := r.Intn(10); {
	case depth == 0 || k < 2:
		switch r.Intn(4) {
		case 0:
			a.Ty, a.Vt, a.Vb = "String", "str", bytesJ("s")
		case 1:
			a.Ty, a.Vt = "Nil", "nil"
		case 2:
			a.Ty, a.Vt, a.Vb = "ListOfAny", "slice", []int{1, 2}
		default:
			a.Ty, a.Vt, a.Vb = "Int", "int", bytesJ("7")
		}
	case k < 4:
		a.Ty, a.Vt = "AstCons", "cons"
		a.Ch = []AstV{g.tree(depth-1, size), g.tree(depth-1, size)}
		for _, x := range a.Ch {
			g.at[x.Op%100000] = [2]int{-1, 0}
		}
	default:
		a.Ty, a.Vt = "ListOfAst", "list"
		n := r.Intn(size + 1)
		for i := 0; i < n; i++ {
			x := g.tree(depth-1, size)
			g.at[x.Op%100000] = [2]int{i, n}
			a.Ch = append(a.Ch, x)
		}
	}
	return a
}

func (g *travGen) rewrite(leaf, back bool) (L, func(a *Ast)) {
	r := g.r
	switch k := r.Intn(10); {
	case k < 3:
		return L{"no"}, nil
	case k == 3 && !leaf:
		a := g.tree(1+r.Intn(2), 3) // another value with new nodes
		return L{"val", a.Ty, a.Vt, ints(a.Vb), astsJ(a.Ch)}, func(x *Ast) { x.Type, x.Value = typeVals[a.Ty], mkVal(a) }
	case k == 4:
		return L{"val", "Int", "int", bytesJ("9"), L{}}, func(x *Ast) { x.Type, x.Value = AstType_Int, int64(9) }
	case k == 5:
		p, n, ad := r.Intn(5), r.Intn(5), r.Intn(len(addrs)+1)
		return L{"at", p, n, ad}, func(x *Ast) { x.Position, x.Length, x.Address = p, n, nil; setOp(x, opOf(*x)%100000+ad*100000) }
	case k == 6 && back:
		op := 90000 + r.Intn(len(bigOps))
		return L{"op", op}, func(x *Ast) { setOp(x, op) }
	}
	s := string(rune('p' + r.Intn(5)))
	return L{"cls", s}, func(x *Ast) { x.ClassName += s }
}

func travCaseOf(r *rand.Rand, depth, size, control, fails int) *travCase {
	c := &travCase{}
	g := &travGen{r: r, c: c, at: map[int][2]int{}}
	c.tree = g.tree(depth, size)
	for id := 1; id <= g.id && id < 400; id++ { // grows with the nodes of rewrites
		at, inTree := g.at[id]
		if !inTree {
			at = [2]int{-1, 0}
		}
		for v := 1; v <= 1+r.Intn(3); v++ {
			if r.Intn(3) > 0 {
				t := travThere{Id: id, V: v, Md: "none", Rw: L{"no"}}
				switch k := r.Intn(12); {
				case k < 1:
					t.Md = "lazy"
				case k < 6:
					t.Md = "last"
				}
				if r.Intn(100) < fails {
					t.Er = "E:there"
				} else if id < 60 {
					t.Rw, t.rw = g.rewrite(id > 40, false)
				}
				c.there = append(c.there, t)
			}
			if r.Intn(3) > 0 {
				b := travBack{Id: id, V: v, Op: "nop", Rw: L{"no"}}
				if r.Intn(100) < control {
					switch r.Intn(5) {
					case 0:
						b.Op = "break"
						b.Pc = r.Intn(2)
						if at[1] > 0 {
							b.Pc = r.Intn(at[1]+2) - at[1]
						}
					case 1:
						b.Op = "continue"
						b.Pc = r.Intn(3)
					default:
						if at[0] >= 0 {
							b.Pc = r.Intn(at[0]+4) - at[0] - 1
						} else {
							b.Pc = r.Intn(3)
						}
					}
				}
				if r.Intn(100) < fails {
					switch r.Intn(3) {
					case 0:
						b.Th = "T"
					case 1:
						b.Er = "E:back"
					default:
						b.Th, b.Er = "T", "E:both"
					}
				}
				b.Rw, b.rw = g.rewrite(true, b.Th+b.Er == "")
				c.back = append(c.back, b)
			}
		}
	}
	return c
}

func init() {
	fams["trav"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "trav", id)
		fails := 0
		if id%2 == 1 {
			fails = 1 + r.Intn(6)
		}
		return travCaseOf(r, 1+r.Intn(4), 1+r.Intn(4), 10+r.Intn(50), fails)
	}
	// long lists with jumps over hundreds of items, long chains of pairs and lists
	fams["travwide"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "travwide", id)
		c := &travCase{max: 4000}
		leaf := func(id int) AstV { return AstV{Cn: "l", Op: id, Ty: "Int", Vt: "int", Vb: bytesJ("7")} }
		if id%4 == 3 { // depth
			d := 40 + r.Intn(60)
			a := leaf(1)
			for k := 1; k < d; k++ {
				b := AstV{Cn: "p", Op: 2 * k, Ty: "AstCons", Vt: "cons", Ch: []AstV{leaf(2*k + 1), a}}
				switch r.Intn(3) {
				case 0:
					b.Ch[0], b.Ch[1] = b.Ch[1], b.Ch[0]
				case 1:
					b.Ty, b.Vt = "ListOfAst", "list"
				}
				a = b
			}
			c.tree = a
			if id%8 == 3 {
				c.back = []travBack{{Id: 1 + r.Intn(2*d), V: 1, Op: "nop", Rw: L{"no"}, Th: "T"}}
			}
			return c
		}
		n := []int{129, 257, 400, 700}[r.Intn(4)]
		if tier == "thorough" {
			n = []int{129, 300, 1030, 1500}[r.Intn(4)]
		}
		c.tree = AstV{Cn: "r", Op: 0, Ty: "ListOfAst", Vt: "list"}
		for k := 1; k <= n; k++ {
			c.tree.Ch = append(c.tree.Ch, leaf(k))
		}
		if id%4 == 0 {
			return c // every item in order
		}
		c.there = []travThere{{Id: 0, V: 1, Md: "last", Rw: L{"no"}}}
		for at, k := 1+r.Intn(9), 0; k < 6; k++ { // the items the execution comes to
			b := travBack{Id: at, V: 1, Op: "nop", Rw: L{"no"}}
			to := 1 + r.Intn(n)
			b.Pc = to - at - 1
			switch r.Intn(6) {
			case 0:
				b.Op, b.Pc = "continue", to-1
			case 1:
				b.Op, b.Pc = "break", to-1-n
			}
			again := false
			for j := range c.back {
				if c.back[j].Id == at {
					again = true
					break
				}
			}
			if !again {
				c.back = append(c.back, b)
				at = to + r.Intn(3)
			}
		}
		return c
	}
	fams["travbig"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "travbig", id)
		return travCaseOf(r, 6, 5, 15, id%2)
	}
}
