package main

// C07, C19: the stock transformers and the conversions, called directly.

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	. "github.com/shellyln/takenoco/base"
	strparser "github.com/shellyln/takenoco/string"
)

var trimAtoms = []string{" ", "\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "a", "b", "à", "Å", "…", "\x85", "\xa0", "\xc2", "\u2003", "\ufeff", "\ufffd", "漢", "\x00", "𝄠"}

func atomText(r *rand.Rand, atoms []string, n int) string {
	s := ""
	for i := r.Intn(n + 1); i > 0; i-- {
		s += atoms[r.Intn(len(atoms))]
	}
	return s
}

func rndItem(r *rand.Rand, strOnly bool) AstV {
	k := r.Intn(10)
	if strOnly {
		k = 9
	}
	a := AstV{Cn: []string{"", "a", "b", "Seq", "Group"}[r.Intn(4)], P: r.Intn(9), Len: r.Intn(5), Op: r.Intn(3)}
	if r.Intn(3) == 0 {
		a.Op = rndOp(r)
	}
	switch k {
	case 0:
		a.Ty, a.Vt, a.Vb = "Int", "int", bytesJ(strconv.Itoa(r.Intn(30)-9))
	case 1:
		a.Ty, a.Vt = "Nil", "nil"
	case 2:
		a.Ty, a.Vt, a.Ch = "ListOfAst", "list", []AstV{strAst("x", "y", 1, 2)}
	case 3:
		a.Ty, a.Vt, a.Vb = "Any", "int", bytesJ("7")
	default:
		a.Ty, a.Vt, a.Vb = "String", "str", bytesJ(atomText(r, trimAtoms, 4))
		if r.Intn(60) == 0 {
			a.Vb = bytesJ(whiteRun(r) + "x" + whiteRun(r))
		}
	}
	return a
}

// whiteRun: a long run of white space
func whiteRun(r *rand.Rand) string {
	s := ""
	for n := r.Intn([]int{3, 20, 150}[r.Intn(3)]); n > 0; n-- {
		s += trimAtoms[r.Intn(8)]
	}
	return s
}

// rndOp: an opcode, small or large, and an address
func rndOp(r *rand.Rand) int {
	op := r.Intn(3)
	if r.Intn(2) == 0 {
		op = 90000 + r.Intn(len(bigOps))
	}
	return op + 100000*r.Intn(4)
}

func rndList(r *rand.Rand, t Tr, n int) []AstV {
	var l []AstV
	strOnly := r.Intn(5) > 0
	for i := 0; i < n; i++ {
		if t.T == "toslice" {
			a := AstV{Cn: "o", Ty: "Any", Vt: "obj", Vb: []int{r.Intn(9)}, P: i, Len: 1}
			if r.Intn(5) == 0 {
				a.Vt, a.Vb = "obj", []int{-999}
			}
			if r.Intn(5) == 0 {
				a.Ty = []string{"Nil", "Int", "String"}[r.Intn(3)]
				if a.Vb[0] == -999 {
					a.Vt, a.Vb = "nil", nil
				}
			}
			l = append(l, a)
		} else {
			switch t.T {
			case "concat", "trim", "trims", "trime":
			default:
				strOnly = false
			}
			l = append(l, rndItem(r, strOnly))
		}
	}
	return l
}

func rndTr(r *rand.Rand) Tr {
	names := []string{"erase", "group", "pop", "xchg", "roll", "roll", "prepend", "push", "setop", "setcls", "setopcls",
		"setval", "concat", "trim", "trims", "trime", "toslice", "terr"}
	t := Tr{T: names[r.Intn(len(names))], N: r.Intn(9), Cn: []string{"", "q"}[r.Intn(2)], M: "E:x"}
	switch t.T {
	case "roll":
		t.N = r.Intn(21) - 10
		if r.Intn(8) == 0 {
			t.N = []int{1000000007, -1000000007, 64, -64}[r.Intn(4)]
		}
	case "setop", "setopcls":
		if r.Intn(2) == 0 {
			t.N = rndOp(r) % 100000
		}
	case "prepend", "push", "setval":
		t.Ast = rndItem(r, false)
	}
	return t
}

func init() {
	fams["transdirect"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "transdirect", id)
		c := &Cases{}
		for k := 0; k < 8; k++ {
			t := rndTr(r)
			f := baseTransformer(t)
			for j := 0; j < 6; j++ {
				n := r.Intn(7)
				if j == 5 && r.Intn(4) == 0 {
					n = 20 + r.Intn(60)
				}
				li := rndList(r, t, n)
				other := rndList(r, t, r.Intn(4))
				spare := r.Intn(3)
				c.add(D{"t": t.J(), "li": astsJ(li)}, func(d D) {
					ctx := ParserContext{Str: "abc", Slice: AnySlice{1}, ClassName: "k"}
					in := make(AstSlice, len(li), len(li)+spare)
					copy(in, mks(li))
					out, err := f(ctx, in)
					d["ok"], d["m"], d["out"] = bit(err == nil), errText(err), L{}
					if err == nil {
						d["out"] = astsJ(snaps(out))
					}
					d["same"] = bit(sameJ(astsJ(snaps(in)), astsJ(li)))
					if r := try(func() { f(ctx, mks(other)) }); r == "panic" {
						panic("on the other list")
					}
					d["kept"] = bit(err != nil || sameJ(astsJ(snaps(out)), d["out"].(L)))
					out2, err2 := f(ctx, mks(li))
					d["again"] = bit((err == nil) == (err2 == nil) && (err != nil || sameJ(astsJ(snaps(out2)), d["out"].(L))))
				})
			}
		}
		return c
	}
	fams["conv"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "conv", id)
		c := &Cases{}
		for k := 0; k < 40; k++ {
			convCase(c, r)
		}
		return c
	}
}

func init() {
	tok := func(s string) []AstV {
		return []AstV{{Cn: "t", Ty: "String", Vt: "str", Vb: bytesJ(s), P: 2, Len: len(s)}}
	}
	// every radix: every byte as a digit, both ends of the ranges
	fams["convradix"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		id++ // radix 0 is not described
		both := func(s string) {
			convOne(c, "int", id, tok(s), id%2 == 0)
			convOne(c, "uint", id, tok(s), id%2 == 0)
		}
		for b := 0; b < 256; b++ {
			both(string([]byte{byte(b)}))
			both("1" + string([]byte{byte(b)}) + "0")
		}
		for _, ch := range digitLike {
			both("1" + string(ch))
		}
		if id < 2 || id > 36 {
			return c
		}
		for _, n := range []uint{8, 15, 16, 31, 32, 62, 63, 64} {
			for d := int64(-2); d <= 2; d++ {
				x := new(big.Int).Lsh(big.NewInt(1), n)
				s := x.Add(x, big.NewInt(d)).Text(id)
				for _, sg := range []string{"", "+", "-", "0", "-00"} {
					both(sg + s)
				}
				both(strings.ToUpper(s))
				both(s + "0")
			}
		}
		return c
	}
	famSize["convradix"] = func(int64, string) int { return 38 }
	// every byte in every place of floating-point texts
	fams["convfloat"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		i := id
		for _, s := range []string{"1.5", "-12.25e-1", ".5E+2", "7.", "1e10"} {
			if i > len(s) {
				i -= len(s) + 1
				continue
			}
			for b := 0; b < 256; b++ {
				x := string([]byte{byte(b)})
				if x == "x" || x == "X" || x == "p" || x == "P" {
					continue // hexadecimal texts are not described
				}
				convOne(c, "float", 10, tok(s[:i]+x+s[i:]), false)
				if i < len(s) {
					convOne(c, "float", 10, tok(s[:i]+x+s[i+1:]), false)
				}
			}
			break
		}
		return c
	}
	famSize["convfloat"] = func(int64, string) int { return 4 + 10 + 6 + 3 + 5 }
}

var limits = []string{"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615",
	"18446744073709551616", "18446744073709551614", "2147483647", "4294967296", "0", "00", "1"}

func splitTokens(r *rand.Rand, s string) []AstV {
	n := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		n = len(s) + 1
	}
	var l []AstV
	for i := 0; i < n; i++ {
		k := r.Intn(len(s) + 1)
		if i == n-1 {
			k = len(s)
		}
		l = append(l, AstV{Cn: fmt.Sprint("t", i), Ty: "String", Vt: "str", Vb: bytesJ(s[:k]), P: 3 + i, Len: k, Op: r.Intn(2)})
		s = s[k:]
	}
	return l
}

// nearMiddle: the decimal text of the middle between two neighbouring doubles, or a little off.
func nearMiddle(r *rand.Rand, e int) string {
	m := r.Int63n(1<<52) + 1<<52
	if r.Intn(4) == 0 {
		m = 1<<53 - 1 - r.Int63n(3)
	}
	x := new(big.Float).SetPrec(400).SetInt64(2*m + 1)
	x.SetMantExp(x, e)
	s := x.Text('f', 60)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(s, "0")
		z := strings.Repeat("0", r.Intn(12))
		switch r.Intn(4) {
		case 0:
			s += z + "1"
		case 1:
			s += z
		case 2: // a little less
			i := len(s) - 1
			for s[i] == '0' || s[i] == '.' {
				i--
			}
			b := []byte(s)
			b[i]--
			for i++; i < len(b); i++ {
				if b[i] != '.' {
					b[i] = '9'
				}
			}
			s = string(b) + strings.Repeat("9", 1+r.Intn(9))
		}
	}
	if i := strings.Index(s, "."); i > 0 && r.Intn(4) == 0 { // the same value with the point elsewhere
		k := r.Intn(20)
		f := s[i+1:]
		for len(f) < k {
			f += "0"
		}
		s = s[:i] + f[:k] + "." + f[k:] + "e-" + strconv.Itoa(k)
	}
	return s
}

var extremes = []string{"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "17976931348623158079372897140530341507993413271003e259",
	"1.797693134862315807937289714053034150799341327100378e308", "1.797693134862315807937289714053034150799341327100379e308",
	"4.9e-324", "2.4703282292062327208e-324", "2.4703282292062328e-324", "2.470328229206232720882843964341106861825299013071623e-324", "2.47e-324",
	"2.2250738585072014e-308", "2.2250738585072011e-308", "2.2250738585072012e-308", "7.4109846876186982e-324", "7.4109846876186981e-324", "1e-323", "1e308", "1e309", "9.99e307"}

func convCase(c *Cases, r *rand.Rand) {
	f := []string{"int", "int", "uint", "uint", "float", "float", "runeint", "intrune", "strint", "strrune"}[r.Intn(10)]
	radix := 10
	var li []AstV
	switch f {
	case "int", "uint":
		if r.Intn(2) == 0 {
			radix = []int{2, 8, 16, 36, 3, 7, 11, 35, 1, 37}[r.Intn(10)]
		}
		var s string
		switch r.Intn(5) {
		case 0:
			s = limits[r.Intn(len(limits))]
			if radix > 1 && radix < 37 && radix != 10 {
				n, err := strconv.ParseUint(s, 10, 64)
				if err == nil {
					s = strconv.FormatUint(n, radix)
				} else {
					s = "1" + strings.Repeat("0", int(math.Ceil(64/math.Log2(float64(radix)))))
				}
			}
		case 1:
			rr := radix
			if rr < 2 || rr > 36 {
				rr = 10
			}
			s = strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), rr)
			if r.Intn(3) == 0 {
				s = strings.ToUpper(s)
			}
		case 2:
			s = atomText(r, []string{"0", "1", "7", "9", "a", "f", "F", "z", "Z", "_", " ", "+", "-", ".", "x", "\x00", "é", "８"}, 6)
		default:
			s = atomText(r, []string{"0", "1", "7", "9", "a", "f"}, 8)
		}
		s = []string{"", "", "", "+", "-", "+-", "++"}[r.Intn(7)] + s
		if r.Intn(10) == 0 {
			s = "0" + s
		}
		li = splitTokens(r, s)
	case "float":
		var s string
		dg := func(n int) string { return atomText(r, []string{"0", "1", "2", "5", "9"}, n) }
		switch r.Intn(6) {
		case 4:
			s = nearMiddle(r, r.Intn(70)-45)
		case 5:
			s = nearMiddle(r, -1)
			if r.Intn(6) == 0 {
				s = extremes[r.Intn(len(extremes))]
			}
		case 0:
			s = atomText(r, []string{"0", "1", "9", ".", "e", "E", "+", "-", "_", " "}, 7)
		case 1:
			s = strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(20)-10)), "efg"[r.Intn(3)], -1, 64)
		case 2:
			s = []string{"1e400", "-1e999", "1e-400", "-1e-999", "0e999", "9007199254740993", "9007199254740992.5", "0.1", "16777217",
				"1.0000000000000001110223024625156540423631668090820312", "1.7976931348623157e25", "5e-1", "1e23", "8.5e22"}[r.Intn(14)]
		default:
			s = dg(12) + "." + dg(8)
			if r.Intn(2) == 0 {
				s += "e" + []string{"", "+", "-"}[r.Intn(3)] + strconv.Itoa(r.Intn(25))
			}
		}
		if r.Intn(3) == 0 {
			s = []string{"+", "-"}[r.Intn(2)] + s
		}
		li = splitTokens(r, s)
	default:
		v := []int64{0, 65, 127, 128, 255, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff,
			0x110000, -1, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxInt64, math.MinInt64, 1<<32 + 65, 99999999, 100000000}[r.Intn(26)]
		if r.Intn(3) == 0 {
			v = int64(r.Intn(0x110000))
		}
		a := AstV{Cn: "t0", Ty: "Int", Vt: "int", Vb: bytesJ(strconv.FormatInt(v, 10)), P: 4, Len: 2, Op: 1}
		if f == "intrune" || f == "strrune" {
			a.Ty, a.Vt, a.Vb = "Any", "rune", bytesJ(strconv.FormatInt(int64(rune(v)), 10))
		}
		li = []AstV{a}
		if r.Intn(4) == 0 {
			li = append(li, rndItem(r, false))
		}
	}
	switch r.Intn(20) {
	case 0:
		li = nil
	case 1:
		i := r.Intn(len(li))
		li[i] = rndItem(r, false)
		if li[i].Vt == "str" && f == "float" { // arbitrary text may be inf or nan
			li[i].Vb = []int{32}
		}
	}
	convOne(c, f, radix, li, r.Intn(2) == 0)
}

// convOne: one conversion; plain asks for the form without a radix
func convOne(c *Cases, f string, radix int, li []AstV, plain bool) {
	var t TransformerFn
	switch f {
	case "int":
		t = strparser.ParseIntRadix(radix)
		if radix == 10 && plain {
			t = strparser.ParseInt
		}
	case "uint":
		t = strparser.ParseUintRadix(radix)
		if radix == 10 && plain {
			t = strparser.ParseUint
		}
	case "float":
		t = strparser.ParseFloat
	case "runeint":
		t = strparser.RuneFromInt
	case "intrune":
		t = strparser.IntFromRune
	case "strint":
		t = strparser.StringFromInt
	case "strrune":
		t = strparser.StringFromRune
	}
	c.add(D{"f": f, "radix": radix, "li": astsJ(li)}, func(d D) {
		in := mks(li)
		d["ok"], d["out"], d["m"], d["x"], d["neg"] = 0, L{}, []int{}, 0, 0
		out, err := t(ParserContext{}, in)
		d["same"] = bit(sameJ(astsJ(snaps(in)), astsJ(li)))
		if err == nil {
			d["ok"], d["out"] = 1, astsJ(snaps(out))
			if len(out) == 1 {
				if x, ok := out[0].Value.(float64); ok && !math.IsInf(x, 0) && !math.IsNaN(x) {
					d["neg"] = bit(x < 0)
					m, e := math.Frexp(math.Abs(x))
					if m != 0 {
						d["m"] = bytesJ(strconv.FormatInt(int64(math.Ldexp(m, 53)), 10))
						d["x"] = e - 53
					}
				}
			}
		}
		out2, err2 := t(ParserContext{}, mks(li))
		d["again"] = bit((err == nil) == (err2 == nil) && (err != nil || sameJ(astsJ(snaps(out2)), d["out"].(L))))
	})
}
