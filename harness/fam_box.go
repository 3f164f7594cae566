package main

// C24: histories of reads and writes through several boxes on shared variables,
// slices and maps.

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"

	. "github.com/shellyln/takenoco/base"
)

type bval struct {
	k string
	b []int
}

func (v bval) J() L { return L{v.k, ints(v.b)} }

var boxKinds = []string{"any", "int", "uint", "float", "bool", "str", "bytes"}

var boxTypes = map[string]reflect.Type{
	"any":   reflect.TypeOf((*interface{})(nil)).Elem(),
	"int":   reflect.TypeOf(int64(0)),
	"uint":  reflect.TypeOf(uint64(0)),
	"float": reflect.TypeOf(float64(0)),
	"bool":  reflect.TypeOf(false),
	"str":   reflect.TypeOf(""),
	"bytes": reflect.TypeOf([]byte{}),
}

func boxVal(v interface{}) bval {
	switch w := v.(type) {
	case nil:
		return bval{"nil", nil}
	case int64:
		return bval{"int", bytesJ(strconv.FormatInt(w, 10))}
	case uint64:
		return bval{"uint", bytesJ(strconv.FormatUint(w, 10))}
	case float64:
		return bval{"float", bytesJ(strconv.FormatFloat(w, 'g', -1, 64))}
	case bool:
		return bval{"bool", []int{bit(w)}}
	case string:
		return bval{"str", bytesJ(w)}
	case []byte:
		return bval{"bytes", bytesJ(string(w))}
	}
	return bval{"other", bytesJ(fmt.Sprintf("%T", v))}
}

func (v bval) go_() interface{} {
	s := toStr(v.b)
	switch v.k {
	case "nil":
		return nil
	case "int":
		n, _ := strconv.ParseInt(s, 10, 64)
		return n
	case "uint":
		n, _ := strconv.ParseUint(s, 10, 64)
		return n
	case "float":
		n, _ := strconv.ParseFloat(s, 64)
		return n
	case "bool":
		return v.b[0] == 1
	case "str":
		return s
	case "bytes":
		return []byte(s)
	}
	panic("value " + v.k)
}

var boxVals = map[string][]interface{}{
	"int":   {int64(0), int64(1), int64(-5), int64(9223372036854775807), int64(-9223372036854775808)},
	"uint":  {uint64(0), uint64(7), uint64(18446744073709551615)},
	"float": {0.0, 1.5, -2.25, 1e300},
	"bool":  {true, false},
	"str":   {"", "a", "héllo", "\x00\xff"},
	"bytes": {[]byte{}, []byte("x"), []byte{0, 255}},
}

// place: where a value lives
type bplace struct {
	kind string // var, elem, entry
	ty   string
	cont reflect.Value // variable (addressable), slice or map
	key  reflect.Value
	idx  int
	grp  int        // container number
	via  func() Box // a box of the container
}

func (p *bplace) has() bool { return p.kind != "entry" || p.cont.MapIndex(p.key).IsValid() }

func (p *bplace) read() bval {
	switch p.kind {
	case "var":
		return boxVal(p.cont.Interface())
	case "elem":
		return boxVal(p.cont.Index(p.idx).Interface())
	}
	v := p.cont.MapIndex(p.key)
	if !v.IsValid() {
		return bval{"missing", nil}
	}
	return boxVal(v.Interface())
}

func (p *bplace) write(v interface{}) {
	rv := reflect.ValueOf(v)
	if v == nil {
		rv = reflect.Zero(boxTypes[p.ty])
	}
	switch p.kind {
	case "var":
		p.cont.Set(rv)
	case "elem":
		p.cont.Index(p.idx).Set(rv)
	default:
		p.cont.SetMapIndex(p.key, rv)
	}
}

type rbox struct {
	b    Box
	kind string
	pl   int
	init bool
}

type BoxHist struct {
	r   *rand.Rand
	n   int
	ev  []D
	pls []*bplace
	mem L
	end string
}

func (h *BoxHist) setEnd(k string) { h.end = k }

func (h *BoxHist) J(id int) D {
	ty, ev := L{}, L{}
	for _, p := range h.pls {
		ty = append(ty, p.ty)
	}
	if h.end == "done" {
		for _, e := range h.ev {
			ev = append(ev, e)
		}
	}
	if h.mem == nil {
		h.mem = L{}
	}
	return D{"id": id, "end": h.end, "types": ty, "mem": h.mem, "ev": ev}
}

func (h *BoxHist) dump() L {
	l := L{}
	for _, p := range h.pls {
		l = append(l, p.read().J())
	}
	return l
}

func (h *BoxHist) world() {
	r := h.r
	grp := 0
	// nest puts a slice or map into another one, in which boxes find it
	nest := func(c reflect.Value) func() Box {
		one := ReflectionBox{Val: c}
		switch r.Intn(4) {
		case 0:
			o := reflect.MakeSlice(reflect.SliceOf(c.Type()), 2, 2)
			o.Index(1).Set(c)
			return func() Box { return ReflectionBox{Val: o}.Index(1) }
		case 1:
			o := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), c.Type()))
			o.SetMapIndex(reflect.ValueOf("k"), c)
			o.SetMapIndex(reflect.ValueOf("l"), reflect.Zero(c.Type()))
			return func() Box {
				if r.Intn(2) == 0 {
					return ReflectionBox{Val: o}.ComplexMapIndex("k")
				}
				return ReflectionBox{Val: o}.MapIndex("k")
			}
		}
		return func() Box { return one }
	}
	nc := 1 + r.Intn(3)
	for c := 0; c < nc; c++ {
		ty := boxKinds[r.Intn(len(boxKinds))]
		if r.Intn(3) == 0 {
			ty = "any"
		}
		t := boxTypes[ty]
		switch k := r.Intn(5); {
		case k == 0:
			h.pls = append(h.pls, &bplace{kind: "var", ty: ty, cont: reflect.New(t).Elem(), grp: grp})
		case k == 1:
			n := 1 + r.Intn(3)
			s := reflect.MakeSlice(reflect.SliceOf(t), n, n+r.Intn(2))
			via := nest(s)
			for i := 0; i < n; i++ {
				h.pls = append(h.pls, &bplace{kind: "elem", ty: ty, cont: s, idx: i, grp: grp, via: via})
			}
		default:
			kt := reflect.TypeOf("")
			keys := []interface{}{"a", "b", "", "漢"}
			switch r.Intn(4) {
			case 0:
				kt = reflect.TypeOf(0)
				keys = []interface{}{0, 1, -7}
			case 1:
				kt = reflect.TypeOf((*interface{})(nil)).Elem()
				keys = []interface{}{"1", 1, int64(1), true}
			}
			m := reflect.MakeMap(reflect.MapOf(kt, t))
			n := 1 + r.Intn(3)
			via := nest(m)
			for i := 0; i < n; i++ {
				p := &bplace{kind: "entry", ty: ty, cont: m, key: reflect.ValueOf(keys[i]), idx: i, grp: grp, via: via}
				h.pls = append(h.pls, p)
				if r.Intn(2) == 0 {
					p.write(h.val(ty))
				}
			}
		}
		grp++
	}
}

func (h *BoxHist) val(ty string) interface{} {
	r := h.r
	if ty == "any" {
		if r.Intn(4) == 0 {
			return nil
		}
		ty = boxKinds[1+r.Intn(len(boxKinds)-1)]
	}
	if r.Intn(6) == 0 {
		return nil
	}
	vs := boxVals[ty]
	return vs[r.Intn(len(vs))]
}

// try runs f and tells whether it panicked.
func try(f func()) (out string) {
	out = "ok"
	defer func() {
		if r := recover(); r != nil {
			out = "panic"
		}
	}()
	f()
	return
}

func boxGet(b Box, k string) interface{} {
	switch k {
	case "int":
		return b.GetInt()
	case "uint":
		return b.GetUint()
	case "float":
		return b.GetFloat()
	case "bool":
		return b.GetBool()
	case "str":
		return b.GetString()
	case "bytes":
		return b.GetBytes()
	}
	return b.GetAny()
}

func boxSet(b Box, k string, v interface{}) {
	switch k {
	case "int":
		b.SetInt(v.(int64))
	case "uint":
		b.SetUint(v.(uint64))
	case "float":
		b.SetFloat(v.(float64))
	case "bool":
		b.SetBool(v.(bool))
	case "str":
		b.SetString(v.(string))
	case "bytes":
		b.SetBytes(v.([]byte))
	default:
		b.SetAny(v)
	}
}

func (h *BoxHist) exec() {
	r := h.r
	h.world()
	h.mem = h.dump()
	var bs []*rbox
	log := func(d D) {
		d["all"] = h.dump()
		h.ev = append(h.ev, d)
	}
	for len(h.ev) < h.n {
		pi := r.Intn(len(h.pls))
		p := h.pls[pi]
		switch r.Intn(8) {
		case 0, 1: // a new box
			if len(bs) > 7 {
				continue
			}
			nb := &rbox{pl: pi}
			out := try(func() {
				switch p.kind {
				case "var":
					nb.kind = "ref"
					nb.b = ReflectionBox{Val: p.cont}
				case "elem":
					nb.kind = "ref"
					if r.Intn(2) == 0 {
						nb.b = ReflectionBox{Val: p.cont.Index(p.idx)}
					} else {
						nb.b = p.via().Index(p.idx)
					}
				default:
					ks, isStr := p.key.Interface().(string)
					switch x := r.Intn(5); {
					case x == 0 && p.has():
						nb.kind = "snap"
						if isStr && r.Intn(2) == 0 {
							nb.b = p.via().MapIndex(ks)
						} else {
							nb.b = p.via().ComplexMapIndex(p.key.Interface())
						}
					case x < 3:
						nb.kind = "not"
						nb.init = r.Intn(8) == 0 && p.has()
						nb.b = &NotInitializedMapContainerReflectionBox{Container: p.cont, Key: p.key, Initialized: nb.init}
					default:
						nb.kind = "map"
						nb.b = MapContainerReflectionBox{Container: p.cont, Key: p.key}
					}
				}
			})
			bs = append(bs, nb)
			log(D{"op": "box", "kind": nb.kind, "p": pi + 1, "init": nb.init, "out": out})
		case 2: // sibling entry
			if len(bs) == 0 || p.kind != "entry" {
				continue
			}
			bi := r.Intn(len(bs))
			b := bs[bi]
			if (b.kind != "map" && b.kind != "not") || h.pls[b.pl].grp != p.grp {
				continue
			}
			nb := &rbox{pl: pi, kind: "map"}
			out := try(func() {
				if ks, ok := p.key.Interface().(string); ok && r.Intn(2) == 0 {
					nb.b = b.b.MapIndex(ks)
				} else {
					nb.b = b.b.ComplexMapIndex(p.key.Interface())
				}
			})
			if out == "ok" {
				bs = append(bs, nb)
			}
			log(D{"op": "sib", "b": bi + 1, "p": pi + 1, "out": out})
		case 3, 4, 5: // read
			if len(bs) == 0 {
				continue
			}
			bi := r.Intn(len(bs))
			b := bs[bi]
			q := h.pls[b.pl]
			if (b.kind == "map" || b.kind == "not") && r.Intn(10) == 0 { // taking an element of it
				i := r.Intn(3)
				log(D{"op": "idx", "b": bi + 1, "out": try(func() { b.b.Index(i) }),
					"ordinary": try(func() { MapContainerReflectionBox{Container: q.cont, Key: q.key}.Index(i) })})
				continue
			}
			if b.kind != "snap" && !q.has() && (b.kind != "not" || b.init) {
				continue // reading an entry that is not there is not described
			}
			k := "any"
			if q.ty != "any" && r.Intn(2) == 0 {
				k = q.ty
			}
			if b.kind == "not" && !b.init && r.Intn(2) == 0 {
				k = boxKinds[r.Intn(len(boxKinds))] // panics whatever it holds
			}
			var v interface{}
			out := try(func() { v = boxGet(b.b, k) })
			log(D{"op": "get", "b": bi + 1, "k": k, "out": out, "v": boxVal(v).J()})
		case 6: // write through a box
			if len(bs) == 0 {
				continue
			}
			bi := r.Intn(len(bs))
			b := bs[bi]
			q := h.pls[b.pl]
			if b.kind == "snap" {
				continue
			}
			v := h.val(q.ty)
			k := "any"
			if v != nil && r.Intn(2) == 0 && (q.ty != "any" || b.kind != "ref") {
				k = boxVal(v).k
			}
			out := try(func() { boxSet(b.b, k, v) })
			b.init = true
			log(D{"op": "set", "b": bi + 1, "k": k, "v": boxVal(v).J(), "out": out})
		case 7: // write directly
			v := h.val(p.ty)
			p.write(v)
			log(D{"op": "put", "p": pi + 1, "v": boxVal(v).J(), "out": "ok"})
		}
	}
	h.end = "done"
}

func init() {
	fams["box"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "box", id)
		return &BoxHist{r: r, n: 10 + r.Intn(40)}
	}
}
