package main

// C25: histories of AST slice operations; comparisons of AST trees.

import (
	"math/rand"
	"reflect"
	"strconv"

	. "github.com/shellyln/takenoco/base"
)

type SliceHist struct {
	r   *rand.Rand
	n   int
	ev  []D
	end string
}

func (h *SliceHist) setEnd(k string) { h.end = k }
func (h *SliceHist) J(id int) D {
	ev := L{}
	if h.end == "done" {
		for _, e := range h.ev {
			ev = append(ev, e)
		}
	}
	return D{"id": id, "end": h.end, "ev": ev}
}

func sliceItem(v int) Ast {
	if v == 0 {
		return Ast{}
	}
	a := Ast{ClassName: "c" + strconv.Itoa(v%3), Type: AstType_Int, Value: int64(v),
		SourcePosition: SourcePosition{Position: v, Length: v % 4}}
	op := v % 5
	if v%7 == 3 {
		op = 90000 + v%len(bigOps)
	}
	setOp(&a, op+100000*(v%4))
	return a
}

func sliceItemNo(x interface{}) int {
	a, ok := x.(Ast)
	if !ok {
		return -2
	}
	n := 0
	if w, ok := a.Value.(int64); ok {
		n = int(w)
	}
	if !reflect.DeepEqual(a, sliceItem(n)) {
		return -1
	}
	return n
}

func (h *SliceHist) exec() {
	r := h.r
	var sl []SliceLike
	var caps []int // capacity promised by Make
	var arrs []int // which array a slice shows
	na := 0
	fresh := func() { na++; arrs = append(arrs, na) }
	alone := func(i int) bool {
		for j, a := range arrs {
			if j != i && a == arrs[i] {
				return false
			}
		}
		return true
	}
	dump := func() L {
		l := L{}
		for _, s := range sl {
			w := []int{}
			for i := 0; i < s.Len(); i++ {
				w = append(w, sliceItemNo(s.Get(i)))
			}
			l = append(l, w)
		}
		return l
	}
	out := try(func() {
		next := 1
		for len(h.ev) < h.n {
			var d D
			if len(sl) == 0 || (len(sl) < 8 && r.Intn(8) == 0) {
				x := r.Intn(5)
				y := x + r.Intn(3)
				var from SliceLike = AstSlice{}
				if len(sl) > 0 {
					from = sl[r.Intn(len(sl))]
				}
				sl = append(sl, from.Make(x, y))
				caps = append(caps, y)
				fresh()
				d = D{"op": "make", "x": x, "y": y}
			} else {
				si := r.Intn(len(sl))
				s := sl[si]
				n := s.Len()
				switch r.Intn(7) {
				case 0, 1:
					if len(sl) >= 8 {
						continue
					}
					y := r.Intn(n + 1)
					cp := r.Intn(2) == 0
					if !cp && r.Intn(3) == 0 {
						y = r.Intn(caps[si] + 1)
					}
					x := r.Intn(y + 1)
					if cp {
						sl = append(sl, s.Copy(x, y))
						caps = append(caps, y-x)
						fresh()
						d = D{"op": "copy", "s": si + 1, "x": x, "y": y}
					} else {
						sl = append(sl, s.Reslice(x, y))
						caps = append(caps, caps[si]-x)
						arrs = append(arrs, arrs[si])
						d = D{"op": "sub", "s": si + 1, "x": x, "y": y}
					}
				case 2, 3:
					if n == 0 {
						continue
					}
					i := r.Intn(n)
					v := next
					next++
					s.Set(i, sliceItem(v))
					d = D{"op": "set", "s": si + 1, "x": i, "v": v}
				case 4:
					if n == 0 {
						continue
					}
					i := r.Intn(n)
					d = D{"op": "get", "s": si + 1, "x": i, "v": sliceItemNo(s.Get(i))}
				case 6:
					// a slice that shares with no other may be extended in place
					w, ok := s.(AstSlice)
					if !ok || !alone(si) || n > 6 {
						continue
					}
					v := next
					next++
					sl[si] = append(w, sliceItem(v))
					if caps[si] < n+1 {
						caps[si] = n + 1
					}
					d = D{"op": "app", "s": si + 1, "v": v}
				case 5:
					d = D{"op": "len", "s": si + 1, "v": n}
				}
			}
			d["all"] = dump()
			h.ev = append(h.ev, d)
		}
	})
	h.end = "done"
	if out == "panic" {
		h.end = "panic"
	}
}

// ---- trees ----------------------------------------------------------------------
func rndTree(r *rand.Rand, depth int) AstV {
	a := AstV{Cn: []string{"", "x", "y", "xy"}[r.Intn(4)], P: r.Intn(3), Len: r.Intn(3), Op: rndOp(r)}
	k := r.Intn(13)
	if depth <= 0 && k < 5 {
		k += 5
	}
	switch k {
	case 0, 1:
		a.Ty, a.Vt = "AstCons", "cons"
		a.Ch = []AstV{rndTree(r, depth-1), rndTree(r, depth-1)}
	case 2, 3, 4:
		a.Ty, a.Vt = "ListOfAst", "list"
		for i := r.Intn(4); i > 0; i-- {
			a.Ch = append(a.Ch, rndTree(r, depth-1))
		}
	case 5:
		a.Ty, a.Vt = "Nil", "nil"
	case 6:
		a.Ty, a.Vt, a.Vb = "Int", "int", bytesJ([]string{"-1", "0", "1", "2", "257", "4294967297", "-9223372036854775808"}[r.Intn(7)])
	case 7:
		a.Ty, a.Vt, a.Vb = "Uint", "uint", bytesJ(strconv.Itoa(r.Intn(3)))
	case 8:
		a.Ty, a.Vt, a.Vb = "Float", "float", bytesJ([]string{"0", "1", "1.5", "1.5000000000000002"}[r.Intn(4)])
	case 9:
		a.Ty, a.Vt, a.Vb = "Bool", "bool", []int{r.Intn(2)}
	case 10:
		a.Ty, a.Vt, a.Vb = "Rune", "rune", bytesJ(strconv.Itoa(r.Intn(3)))
	case 11:
		a.Ty, a.Vt = "ListOfAny", "slice"
		for i := r.Intn(3); i > 0; i-- {
			a.Vb = append(a.Vb, r.Intn(3))
		}
	default:
		a.Ty, a.Vt, a.Vb = "String", "str", bytesJ([]string{"", "x", "y", "xy", "X", "x ", "1", "\u00e9", "e\u0301", "\xff"}[r.Intn(10)])
	}
	if a.Ch == nil && r.Intn(6) == 0 {
		a.Ty = "Any"
	}
	return a
}

func cloneTree(a AstV) AstV {
	b := a
	b.Vb = append([]int{}, a.Vb...)
	b.Ch = nil
	for _, c := range a.Ch {
		b.Ch = append(b.Ch, cloneTree(c))
	}
	return b
}

func treeNodes(a *AstV) []*AstV {
	l := []*AstV{a}
	for i := range a.Ch {
		l = append(l, treeNodes(&a.Ch[i])...)
	}
	return l
}

func mutTree(r *rand.Rand, a AstV) AstV {
	b := cloneTree(a)
	for k := r.Intn(3); k >= 0; k-- {
		ns := treeNodes(&b)
		n := ns[r.Intn(len(ns))]
		switch r.Intn(8) {
		case 0, 1, 2:
			n.P += 1 + r.Intn(3)
			n.Op = rndOp(r)
			n.Len += r.Intn(2)
		case 3:
			n.Op = rndOp(r)
		case 4:
			n.Cn += "z"
		case 5:
			if n.Vt == "list" {
				if len(n.Ch) > 0 && r.Intn(2) == 0 {
					n.Ch = n.Ch[:len(n.Ch)-1]
				} else {
					n.Ch = append(n.Ch, rndTree(r, 0))
				}
			} else if n.Vt == "slice" {
				n.Vb = append(n.Vb, r.Intn(3))
			}
		case 6:
			if len(n.Ch) >= 2 {
				n.Ch[0], n.Ch[1] = n.Ch[1], n.Ch[0]
			}
		case 7:
			if len(n.Ch) == 0 {
				c := rndTree(r, 0)
				n.Ty, n.Vt, n.Vb = c.Ty, c.Vt, c.Vb
			}
		}
	}
	return b
}

func longTree(r *rand.Rand) AstV {
	a := rndTree(r, 0)
	if r.Intn(2) == 0 {
		n := 40 + r.Intn(300)
		a = AstV{Cn: "r", Ty: "ListOfAst", Vt: "list"}
		for i := 0; i < n; i++ {
			a.Ch = append(a.Ch, rndTree(r, 0))
		}
		return a
	}
	for i := 20 + r.Intn(70); i > 0; i-- {
		b := AstV{Cn: "p", Ty: "AstCons", Vt: "cons", Ch: []AstV{rndTree(r, 0), a}, P: i}
		switch r.Intn(3) {
		case 0:
			b.Ch[0], b.Ch[1] = b.Ch[1], b.Ch[0]
		case 1:
			b.Ty, b.Vt = "ListOfAst", "list"
		}
		a = b
	}
	return a
}

func init() {
	fams["slice"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "slice", id)
		return &SliceHist{r: r, n: 10 + r.Intn(40)}
	}
	fams["treeeq"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "treeeq", id)
		c := &Cases{}
		for k := 0; k < 25; k++ {
			a := rndTree(r, r.Intn(4))
			b := mutTree(r, a)
			switch r.Intn(6) {
			case 0:
				b = rndTree(r, r.Intn(4))
			case 1:
				b = cloneTree(a)
			}
			if k == 24 { // deep or wide, alike or different in one place
				a = longTree(r)
				b = cloneTree(a)
				if ns := treeNodes(&b); r.Intn(3) > 0 {
					n := ns[r.Intn(len(ns))]
					if r.Intn(2) == 0 {
						n = ns[len(ns)-1]
					}
					if r.Intn(2) == 0 || len(n.Ch) > 0 {
						n.Cn += "z"
					} else {
						n.Ty, n.Vt, n.Vb = "Int", "int", bytesJ("7")
					}
				}
			}
			c.add(D{"a": a.J(), "b": b.J()}, func(d D) {
				x, y := mk(a), mk(b)
				var s AstSlice
				d["eq"] = bit(s.ItemEquals(x, y))
				d["rev"] = bit(AstSlice{x}.ItemEquals(y, x))
				d["self"] = bit(s.ItemEquals(x, x))
				d["same"] = bit(reflect.DeepEqual(snap(x), snap(mk(a))) && reflect.DeepEqual(snap(y), snap(mk(b))))
			})
		}
		return c
	}
}
