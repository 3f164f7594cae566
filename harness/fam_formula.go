package main

// C23: the formula evaluator and the converter to postfix form.

import (
	"math/rand"
	"strconv"
	"strings"

	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
)

// int64 as a sign and decimal digits without leading zeros
func numJ(v int64) (int, L) {
	s, sg := strconv.FormatInt(v, 10), 0
	if s[0] == '-' {
		s, sg = s[1:], 1
	}
	l := L{}
	if s != "0" {
		for _, c := range s {
			l = append(l, int(c-'0'))
		}
	}
	return sg, l
}

// bound is an upper bound of all absolute values in the evaluation of a well-formed text.
type bound struct {
	s   string
	i   int
	max float64
}

func (b *bound) see(v float64) float64 {
	if v > b.max {
		b.max = v
	}
	return v
}

func (b *bound) skip() byte {
	for b.i < len(b.s) && !strings.ContainsRune("0123456789+-*/()", rune(b.s[b.i])) {
		b.i++
	}
	if b.i < len(b.s) {
		return b.s[b.i]
	}
	return 0
}

func (b *bound) factor() float64 {
	for c := b.skip(); c == '-' || c == '+'; c = b.skip() {
		b.i++
	}
	if b.skip() == '(' {
		b.i++
		v := b.sum()
		if b.skip() == ')' {
			b.i++
		}
		return v
	}
	j := b.i
	for b.i < len(b.s) && (b.s[b.i] >= '0' && b.s[b.i] <= '9' || b.s[b.i] == '_') {
		b.i++
	}
	v, err := strconv.ParseFloat(strings.ReplaceAll(b.s[j:b.i], "_", ""), 64)
	if err != nil {
		v = 0
	}
	return b.see(v)
}

func (b *bound) term() float64 {
	v := b.factor()
	for c := b.skip(); c == '*' || c == '/'; c = b.skip() {
		b.i++
		w := b.factor()
		if c == '*' {
			v = b.see(v * (w + 1))
		}
	}
	return v
}

func (b *bound) sum() float64 {
	v := b.term()
	for c := b.skip(); c == '+' || c == '-'; c = b.skip() {
		b.i++
		v = b.see(v + b.term())
	}
	return v
}

func formulaCase(c *Cases, s string) {
	b := &bound{s: s}
	b.sum()
	c.add(D{"src": bytesJ(s), "big": bit(b.max > 1e9)}, func(d D) {
		v := D{"st": "err", "sg": 0, "ds": L{}}
		r := D{"st": "err", "items": L{}}
		d["v"], d["r"] = v, r
		if n, err := formula.Parse(s); err == nil {
			v["st"] = "ok"
			v["sg"], v["ds"] = numJ(n)
		}
		if l, err := torpn.Parse(s); err == nil {
			r["st"] = "ok"
			items := L{}
			for _, x := range l {
				switch x := x.(type) {
				case int64:
					sg, ds := numJ(x)
					items = append(items, L{"num", sg, ds})
				case string:
					if len(x) == 1 {
						items = append(items, L{"op", int(x[0]), L{}})
					} else {
						items = append(items, L{"str", 0, bytesJ(x)})
					}
				default:
					items = append(items, L{"other", 0, L{}})
				}
			}
			r["items"] = items
		}
	})
}

func fmSpace(r *rand.Rand, dense bool) string {
	if dense || r.Intn(3) > 0 {
		return ""
	}
	return oneOf(r, " ", " ", "\t", "\n", "  ", "\u0085", "\u00a0", "\r\n", "\v", "\f")
}

func fmLit(r *rand.Rand, wild bool) string {
	if wild {
		switch r.Intn(12) {
		case 0:
			return oneOf(r, "9223372036854775807", "9223372036854775808", "9223372036854775806", "9223372036854775809", "99999999999999999999", "18446744073709551616", "10000000000000000000")
		case 3, 4:
			return oneOf(r, "2147483647", "2147483648", "4294967296", "3037000499", "3037000500", "9007199254740991", "9007199254740993", "4611686018427387904", "4611686018427387905")
		case 5, 6:
			s := strconv.Itoa(1 + r.Intn(9))
			for n := r.Intn(18); n > 0; n-- {
				s += strconv.Itoa(r.Intn(10))
			}
			return s
		case 1:
			return oneOf(r, "1_0", "0_", "1_", "0__", "1__2", "100")
		case 2:
			return strconv.Itoa(r.Intn(100000))
		}
	}
	return strconv.Itoa(r.Intn(6))
}

func fmExpr(r *rand.Rand, depth int, dense, wild bool) string {
	sp := func() string { return fmSpace(r, dense) }
	n := 1 + r.Intn(3)
	if depth <= 0 {
		n = 1
	}
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += oneOf(r, "+", "-", "*", "/", "-", "/") + sp()
		}
		for r.Intn(4) == 0 {
			s += "-" + sp()
		}
		if depth > 0 && r.Intn(3) > 0 {
			s += "(" + sp() + fmExpr(r, depth-1, dense, wild) + ")" + sp()
		} else {
			if r.Intn(8) == 0 {
				s += oneOf(r, "+", "-")
			}
			s += fmLit(r, wild) + sp()
		}
	}
	return s
}

func fmLen(tier string) int {
	if tier == "thorough" {
		return 6
	}
	return 5
}

func init() {
	letters := []string{"0", "2", "+", "-", "*", "/", "(", ")", " "}
	const chunk = 300
	fams["formtexts"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		n := textsUpTo(len(letters), fmLen(tier))
		for i := id * chunk; i < (id+1)*chunk && i < n; i++ {
			formulaCase(c, nthText(letters, i))
		}
		return c
	}
	famSize["formtexts"] = func(seed int64, tier string) int {
		return (textsUpTo(len(letters), fmLen(tier)) + chunk - 1) / chunk
	}
	// characters in every place
	fams["formchars"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		for i := id * 40; i < (id+1)*40 && i < len(placeChars); i++ {
			for _, f := range []string{"X", "1X", "X1", "1X2", "12X3", "(X1)", "(1X)", "1+X2", "1X+2", "1-2X", "1 X", "-X1", "1X(2)", "(1)X2"} {
				formulaCase(c, strings.ReplaceAll(f, "X", string(placeChars[i])))
			}
		}
		return c
	}
	famSize["formchars"] = func(int64, string) int { return (len(placeChars) + 39) / 40 }
	fams["formula"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "formula", id)
		c := &Cases{}
		for k := 0; k < 30; k++ {
			s := fmSpace(r, false) + fmExpr(r, 1+r.Intn(3), r.Intn(3) == 0, r.Intn(3) == 0)
			switch r.Intn(9) {
			case 0: // one character more
				i := r.Intn(len(s) + 1)
				s = s[:i] + oneOf(r, "0", "7", "+", "-", "*", "/", "(", ")", " ", "_", "a", "$", ".", "é", "\x00", "^", "\u3000", "\xff") + s[i:]
			case 1: // one less
				i := r.Intn(len(s))
				s = s[:i] + s[i+1:]
			case 2: // cut
				s = s[:r.Intn(len(s)+1)]
			case 3:
				if r.Intn(3) == 0 {
					s += oneOf(r, "/0", "/(1-1)", "*(2", ")", "+", " 1", "/-0", "-")
				}
			}
			formulaCase(c, s)
		}
		return c
	}
	// long and deep ones
	fams["formbig"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "formbig", id)
		c := &Cases{}
		n := 20 + r.Intn(40)
		if tier == "thorough" {
			n = 30 + r.Intn(120)
		}
		if id%20 < 5 && id%5 != 1 { // beyond the widths of counters
			n = 130 + r.Intn(200)
		}
		var b strings.Builder
		switch id % 5 {
		case 0: // a long sum
			b.WriteString("1")
			for i := 0; i < n; i++ {
				b.WriteString(oneOf(r, "+", "-") + oneOf(r, "", "-", "- ") + strconv.Itoa(r.Intn(100)))
			}
		case 1: // many levels
			s := "3"
			for i := 0; i < n/3; i++ {
				switch r.Intn(4) {
				case 0:
					s = "(" + s + ")"
				case 1:
					s = "(2-" + s + ")"
				case 2:
					s = "-(" + s + "+1)"
				default:
					s = "(" + s + "/2)"
				}
			}
			b.WriteString(s)
		case 2: // divisions from left to right
			b.WriteString("99999999")
			for i := 0; i < n; i++ {
				b.WriteString(oneOf(r, "/", "/", "*", "+", "-") + oneOf(r, "1", "1", "-1", "2"))
				if r.Intn(12) == 0 {
					b.WriteString("/3")
				}
			}
		case 3: // signs
			b.WriteString(strings.Repeat("-", n) + "5" + oneOf(r, "+", "-", "*") + strings.Repeat("- ", n/2) + "4")
		case 4:
			b.WriteString("7")
			for i := 0; i < n/2; i++ {
				b.WriteString(oneOf(r, " + ", " - ", "*", "/") + "(" + strconv.Itoa(1+r.Intn(3)) + oneOf(r, "", "", "*1", "+1", "-3") + ")")
			}
		}
		s := b.String()
		formulaCase(c, s)
		formulaCase(c, s[:r.Intn(len(s))])
		formulaCase(c, s+")")
		return c
	}
}
