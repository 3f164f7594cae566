package main

// C09, C11, C17: single recognisers, called directly: on every code point, on all
// short texts, on random texts.

import (
	"math/rand"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	strparser "github.com/shellyln/takenoco/string"
)

var markAst = AstV{Cn: "below", Ty: "Int", Vt: "int", Vb: bytesJ("1"), P: 77, Len: 3, Op: 2}

// runOne calls a parser at an offset, on top of one AST.
func runOne(p ParserFn, src string, pos int) D {
	stack := append(make(AstSlice, 0, 4), mk(markAst))
	ctx := ParserContext{Str: src, AstStack: stack, Tag: "t", ClassName: "x"}
	ctx.Position, ctx.Length = pos, 5
	out, err := p(ctx)
	ok := len(out.AstStack) >= 1 && out.Str == src && out.Tag == "t" &&
		sameJ(snap(out.AstStack[0]).J(), markAst.J()) && sameJ(snap(stack[0]).J(), markAst.J())
	as := L{}
	if len(out.AstStack) > 1 {
		as = astsJ(snaps(out.AstStack[1:]))
	}
	return D{"st": status(&out, err), "n": out.Position - pos, "as": as, "ok": bit(ok)}
}

// quickOne is runOne without the recorded form, for the sweeps.
func quickOne(p ParserFn, src string, pos int) (st string, n int, as AstSlice) {
	stack := append(make(AstSlice, 0, 2), Ast{ClassName: "below", Type: AstType_Int, Value: int64(1)})
	ctx := ParserContext{Str: src, AstStack: stack, Tag: "t"}
	ctx.Position, ctx.Length = pos, 5
	out, err := p(ctx)
	if len(out.AstStack) < 1 || out.Str != src || out.Tag != "t" {
		return "other", 0, nil
	}
	for _, a := range []*Ast{&out.AstStack[0], &stack[0]} {
		if a.ClassName != "below" || a.Type != AstType_Int || a.Value != int64(1) {
			return "other", 0, nil
		}
	}
	return status(&out, err), out.Position - pos, out.AstStack[1:]
}

func textAst(a *Ast, cn, text string, pos int) bool {
	s, ok := a.Value.(string)
	return ok && s == text && clsName(a.ClassName) == cn && a.Type == AstType_String && a.OpCode == 0 && a.Address == nil &&
		a.Position == pos
}

var leafDefs = []*Node{{Op: "any"}, {Op: "ws"}, {Op: "wsnl"}, {Op: "lbk"}, {Op: "alpha"}, {Op: "num"}, {Op: "alnum"},
	{Op: "bin"}, {Op: "oct"}, {Op: "hex"},
	{Op: "range", RS: [][2]int{{'b', 'd'}}},
	{Op: "range", RS: [][2]int{{0x7f, 0x81}, {0x7ff, 0x800}, {0xfffc, 0x10001}, {0x10ffff, 0x10ffff}}},
	{Op: "rangeN", RS: [][2]int{{'b', 'd'}, {0x100, 0xd7ff}}},
	{Op: "rangeN", RS: [][2]int{{0, 0}, {0xfffd, 0xfffd}}},
	{Op: "classFn", RS: [][2]int{{0x20, 0x7e}, {0xe000, 0xe001}}},
}

func leafParser(n *Node) ParserFn {
	return newBuilder([]*Node{n}, "", nil, false).build(0, false)
}

var leafAround = [][2]string{{"", ""}, {"x", "y"}, {"漢", "\x80"}}

// leafRune runs a one-character recogniser before, in and after other text.
func leafRune(p ParserFn, cn string, r rune) string {
	e := string(r)
	sig := ""
	for _, w := range leafAround {
		st, n, as := quickOne(p, w[0]+e+w[1], len(w[0]))
		s := "other"
		switch {
		case st == "M" && n == len(e) && len(as) == 1 && textAst(&as[0], cn, e, len(w[0])) && as[0].Length == len(e):
			s = "M"
		case st == "U" && n == 0 && len(as) == 0:
			s = "U"
		}
		if sig != "" && sig != s {
			return "other"
		}
		sig = s
	}
	return sig
}

var leafCls = map[string]string{"any": "Any", "ws": "Whitespace", "wsnl": "WhitespaceNoLineBreak", "lbk": "LineBreak",
	"alpha": "Alpha", "num": "Number", "alnum": "Alnum", "bin": "BinNumber", "oct": "OctNumber", "hex": "HexNumber",
	"range": "CharRange", "rangeN": "CharRangeN", "classFn": "CharClassFn"}

func sweepRunes(f func(r rune) string) L {
	segs := L{}
	start, last, sig := rune(0), rune(-1), ""
	for r := rune(0); r <= utf8.MaxRune; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		s := f(r)
		if last < 0 {
			sig = s
		} else if s != sig {
			segs = append(segs, L{int(start), int(last), sig})
			start, sig = r, s
		}
		last = r
	}
	return append(segs, L{int(start), int(last), sig})
}

// wbRune: is the character taken as a word character, seen from both sides.
func wbRune(p ParserFn, r rune) string {
	e := string(r)
	sig := ""
	for _, x := range []struct {
		s    string
		p    int
		word bool // what matching says about r
	}{{e, 0, true}, {e, len(e), true}, {"a" + e, 1, false}, {" " + e, 1, true}, {e + "a", len(e), false},
		{e + " ", len(e), true}, {"漢" + e + "!", 3 + len(e), true},
		{"a" + e + "a", 1 + len(e), false}, {" " + e + "a", 1 + len(e), false}, {"a" + e + " ", 1 + len(e), true},
		{"a" + e + " ", 1, false}, {" " + e + "a", 1, true}, {" " + e, 1 + len(e), true}, {"a" + e, 1 + len(e), true}} {
		st, n, as := quickOne(p, x.s, x.p)
		s := "other"
		if n == 0 && len(as) == 0 && (st == "M" || st == "U") {
			s = "U"
			if (st == "M") == x.word {
				s = "M"
			}
		}
		if sig != "" && sig != s {
			return "other"
		}
		sig = s
	}
	return sig
}

var uniTabs = []struct {
	n string
	t *unicode.RangeTable
}{{"L", unicode.L}, {"Nl", unicode.Nl}, {"Other_ID_Start", unicode.Other_ID_Start}, {"Mn", unicode.Mn}, {"Mc", unicode.Mc},
	{"Nd", unicode.Nd}, {"Pc", unicode.Pc}, {"Other_ID_Continue", unicode.Other_ID_Continue},
	{"Pattern_Syntax", unicode.Pattern_Syntax}, {"Pattern_White_Space", unicode.Pattern_White_Space}}

func runeProps(r rune) L {
	l := L{}
	for _, t := range uniTabs {
		if unicode.Is(t.t, r) {
			l = append(l, t.n)
		}
	}
	return l
}

func propTab(s string) L {
	seen := map[rune]bool{}
	l := L{}
	for _, r := range s + "\ufffd" {
		if !seen[r] {
			seen[r] = true
			l = append(l, L{int(r), runeProps(r)})
		}
	}
	return l
}

func sweepClasses(f func(r rune) string) (L, int) {
	type key struct {
		ps, got string
		r       rune
	}
	seen := map[key]bool{}
	combos := L{}
	n := 0
	for r := rune(0); r <= utf8.MaxRune; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		n++
		got := f(r)
		ps := runeProps(r)
		k := key{got: got, r: -1}
		for _, p := range ps {
			k.ps += p.(string) + " "
		}
		if r < 128 || (r >= 0x2000 && r < 0x2010) { // one by one where single characters are named
			k.r = r
		}
		if !seen[k] {
			seen[k] = true
			g := interface{}(got == "M")
			if got != "M" && got != "U" {
				g = false
				ps = L{"L"}
				k.r = 65
			}
			combos = append(combos, D{"r": int(r), "ps": ps, "got": g})
		}
	}
	return combos, n
}

func identRune(p ParserFn, first bool) func(r rune) string {
	return func(r rune) string {
		e := string(r)
		pre := ""
		if !first {
			pre = "a"
		}
		st, n, as := quickOne(p, "("+pre+e+")", 1)
		switch {
		case st == "M" && n == len(pre+e) && len(as) == 1 && textAst(&as[0], "IdentifierStr", pre+e, 1):
			return "M"
		case !first && st == "M" && n == 1 && len(as) == 1 && textAst(&as[0], "IdentifierStr", pre, 1):
			return "U"
		case first && st == "U" && n == 0 && len(as) == 0:
			return "U"
		}
		return "other"
	}
}

// ---- number texts ---------------------------------------------------------------------
type numForm struct {
	name string
	p    func() ParserFn
	conv TransformerFn
}

var numForms = []numForm{
	{"IntegerNumberStr", extra.IntegerNumberStr, strparser.ParseInt},
	{"FloatNumberStr", extra.FloatNumberStr, strparser.ParseFloat},
	{"NumericStr", extra.NumericStr, strparser.ParseFloat},
	{"BinaryNumberStr", extra.BinaryNumberStr, strparser.ParseUintRadix(2)},
	{"OctalNumberStr", extra.OctalNumberStr, strparser.ParseUintRadix(8)},
	{"HexNumberStr", extra.HexNumberStr, strparser.ParseUintRadix(16)},
}

func numCase(c *Cases, f numForm, p ParserFn, src string, pos int) {
	c.add(D{"k": "num", "form": f.name, "src": bytesJ(src), "p": pos}, func(d D) {
		d["o"] = runOne(p, src, pos)
		d["conv"] = "none"
		if d["o"].(D)["st"] == "M" {
			_, err := Trans(p, f.conv)(ParserContext{Str: src, SourcePosition: SourcePosition{Position: pos}})
			d["conv"] = "ok"
			if err != nil {
				d["conv"] = "bad"
				if strings.Contains(err.Error(), strconv.ErrRange.Error()) && len(src)-pos > 4 {
					d["conv"] = "range"
				}
			}
		}
	})
}

func idCase(c *Cases, form string, src string, pos int) {
	p := extra.AsciiIdentifierStr()
	if form == "unicode" {
		p = extra.UnicodeIdentifierStr()
	}
	c.add(D{"k": "id", "form": form, "src": bytesJ(src), "p": pos, "tab": propTab(src)}, func(d D) { d["o"] = runOne(p, src, pos) })
}

func wbCase(c *Cases, form string, src string, pos int) {
	p := strparser.WordBoundary()
	if form == "unicode" {
		p = extra.UnicodeWordBoundary()
	}
	c.add(D{"k": "wb", "form": form, "src": bytesJ(src), "p": pos, "tab": propTab(src)}, func(d D) { d["o"] = runOne(p, src, pos) })
}

func leafCase(c *Cases, n *Node, src string, pos int, fold L) {
	p := leafParser(n)
	c.add(D{"k": "leaf", "nd": n.J(), "src": bytesJ(src), "p": pos, "fold": fold}, func(d D) { d["o"] = runOne(p, src, pos) })
}

// orbit: the case-folding class of a character, smallest first.
func orbit(r rune) []rune {
	o := []rune{r}
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		o = append(o, x)
	}
	return o
}

func foldTab(s string) L {
	l := L{}
	seen := map[rune]bool{}
	for _, r := range s {
		if seen[r] {
			continue
		}
		seen[r] = true
		o := orbit(r)
		m := o[0]
		for _, x := range o {
			if x < m {
				m = x
			}
		}
		if len(o) > 1 {
			l = append(l, L{int(r), int(m)})
		}
	}
	return l
}

func sameLenOnly(s string) bool { // every character folds to characters of its own length only
	for _, r := range s {
		for _, o := range orbit(r) {
			if utf8.RuneLen(o) != utf8.RuneLen(r) {
				return false
			}
		}
	}
	return true
}

var wbAtoms = []string{"a", "Z", "0", "_", "$", " ", "-", "é", "漢", "😀", "𝒳", "٣", "\u0301", "\u200d", "‿", "\u00a0", "!", "\U000f1234", "\U00100000", "ß", "ʼ", "€", "\u200e", "·", "\x7f", "\u0080", "\u07ff", "\u0800", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "\x00"}
var idAtoms = []string{"a", "Z", "0", "9", "_", "$", " ", "é", "漢", "😀", "𝒳", "٣", "\u0301", "\u200d", "\u200c", "‿", "ⅷ", "℘", "·", "-", "\xff", "\xc3"}
var badAtoms = []string{"a", "b", "\x80", "\xbf", "\xc0", "\xc2", "\xe0", "\xa0", "\x9f", "\xed", "\xf0", "\x90", "\x8f", "\xf4", "\xf5", "\xff", "é", "世", "😀", "\xef\xbf\xbd", "1", " ", "\t"}
var numLetters = []string{"0", "1", "_", ".", "e", "+", "-", "x"}
var radLetters = []string{"0", "1", "7", "9", "A", "f", "g", "_"}

func runeStarts(s string) []int {
	l := []int{}
	for i := range s {
		l = append(l, i)
	}
	return append(l, len(s))
}

func numTextLen(tier string) int {
	if tier == "thorough" {
		return 6
	}
	return 4
}

var numStates = []string{"12", "1_", "1__", "0_", "0__", "00", "01", "0_1", "1_2_", "1.", "1._", "1.__", "1.2", "1.2_", "1.2__3", "0.", "0._", "0_.",
	"1_.", "1__._", "0.0", ".", "._", ".__", ".5", "._5", ".__5_", ".5__", "1e", "1e+", "1e-", "1e5", "1e5_", "1e5__", "1.e", "1.e5", "1._e", "1.5e-",
	".5e", ".5e5_", "0e", "0e0", "0_e0", "1_e1", "1.2_e", "1.2e5_6", "._e", ".e", "1e00", "1.5.", "1ee"}

var radStates = []string{"", "0", "1", "1_", "_", "10__", "01"}

// characters that are digits or signs elsewhere, or whose low bits are those of digits
const digitLike = "\u0130\u0131\u0661\u0967\uff11\uff10\u00b2\u00bd\u2160\u2212\u2013\uff0b\u0245\u0265\u012e\u015f\u00a0\u3000\U0001d7ce\U00010030\u212a\u017f"

const numChunk = 60

func init() {
	// every code point
	fams["leafsweep"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		n := leafDefs[id]
		p := leafParser(n)
		c.add(D{"k": "sweep", "nd": n.J()}, func(d D) {
			d["segs"] = sweepRunes(func(r rune) string { return leafRune(p, leafCls[n.Op], r) })
		})
		return c
	}
	famSize["leafsweep"] = func(int64, string) int { return len(leafDefs) }
	// letters and their case variants
	fams["seqisweep"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		n := 0
		for r := rune(1); r <= utf8.MaxRune; r++ {
			o := orbit(r)
			if len(o) < 2 {
				continue
			}
			n++
			if n%8 != id {
				continue
			}
			for _, x := range append(o, r+1, r-1) {
				if utf8.RuneLen(x) != utf8.RuneLen(r) {
					continue
				}
				leafCase(c, &Node{Op: "seqi", S: string(r)}, "é"+string(x)+"k", 2, foldTab(string(r)+string(x)))
			}
		}
		return c
	}
	famSize["seqisweep"] = func(int64, string) int { return 8 }
	fams["leafcase"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "leafcase", id)
		c := &Cases{}
		for k := 0; k < 60; k++ {
			atoms := badAtoms
			if k%3 == 0 {
				atoms = append([]string{"k", "K", "s", "S", "É", "É", "aB", "Ab"}, badAtoms...)
			}
			src := atomText(r, atoms, 6)
			pos := r.Intn(len(src) + 1)
			piece := func() string { // part of the text, or nearly
				if len(src) == 0 || r.Intn(4) == 0 {
					return atomText(r, atoms, 2)
				}
				a := pos
				if r.Intn(4) == 0 {
					a = r.Intn(len(src) + 1)
				}
				b := a + r.Intn(len(src)-a+1)
				if b > a+3 {
					b = a + 3
				}
				return src[a:b]
			}
			var n *Node
			switch r.Intn(9) {
			case 0, 1:
				n = &Node{Op: "seq", S: piece()}
			case 2:
				s := piece()
				if utf8.ValidString(s) && sameLenOnly(s) {
					s = swapCase(r, s)
				}
				n = &Node{Op: "seqi", S: s}
			case 3:
				n = &Node{Op: "class", SS: []string{piece(), piece(), piece()}[:r.Intn(4)]}
			case 4:
				n = &Node{Op: "classN", SS: []string{piece(), piece(), piece()}[:r.Intn(4)]}
			case 5:
				n = &Node{Op: []string{"start", "end"}[r.Intn(2)]}
			case 6:
				ch, _ := utf8.DecodeRuneInString(src[pos:])
				lo := int(ch) - r.Intn(3)
				rs := [][2]int{{lo, lo + r.Intn(3)}, {r.Intn(300), r.Intn(300)}}[:r.Intn(3)]
				for len(rs) > 0 && r.Intn(3) > 0 { // more, in any order
					at := []int{r.Intn(0x300), 0x4e00 + r.Intn(0x100), 0x1f600 + r.Intn(0x100), int(ch) + 2 + r.Intn(0x11000), int(ch) - 5}[r.Intn(5)]
					rs = append(rs, [2]int{at, at + r.Intn(3)})
					j := r.Intn(len(rs))
					rs[j], rs[len(rs)-1] = rs[len(rs)-1], rs[j]
				}
				n = &Node{Op: []string{"range", "rangeN", "classFn"}[r.Intn(3)], RS: rs}
			default:
				n = leafDefs[r.Intn(len(leafDefs))]
			}
			if n.Op == "seqi" && (!utf8.ValidString(n.S) || !sameLenOnly(n.S) || !sameLenOnly(src)) {
				continue
			}
			leafCase(c, n, src, pos, foldTab(src+n.S))
		}
		return c
	}
	// each recogniser at each place of the texts with one byte of any value
	famSize["bytesweep"] = func(int64, string) int { return 32 }
	fams["bytesweep"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		ops := append([]*Node{{Op: "start"}, {Op: "end"}, {Op: "seq", S: "a"}, {Op: "class", SS: []string{"a", "b"}}, {Op: "classN", SS: []string{"a", "b"}}}, leafDefs...)
		for b := id * 8; b < id*8+8; b++ {
			x := string([]byte{byte(b)})
			for _, src := range []string{x, "a" + x, x + "a"} {
				for pos := 0; pos <= len(src); pos++ {
					for _, n := range ops {
						leafCase(c, n, src, pos, foldTab(src+n.S))
					}
				}
			}
		}
		return c
	}
	// word boundaries
	fams["wbsweep"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		if id == 0 {
			p := strparser.WordBoundary()
			c.add(D{"k": "sweep", "nd": D{"op": "wb"}}, func(d D) {
				d["segs"] = sweepRunes(func(r rune) string { return wbRune(p, r) })
			})
		} else {
			p := extra.UnicodeWordBoundary()
			c.add(D{"k": "classes", "what": "word"}, func(d D) {
				d["combos"], d["total"] = sweepClasses(func(r rune) string { return wbRune(p, r) })
			})
		}
		return c
	}
	famSize["wbsweep"] = func(int64, string) int { return 2 }
	fams["wbcase"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "wbcase", id)
		c := &Cases{}
		for k := 0; k < 12; k++ {
			s := atomText(r, wbAtoms, 5)
			if k == 0 {
				for i := 0; i < 3; i++ {
					x := rune(r.Intn(0x110000))
					s += string(x)
				}
			}
			for _, p := range runeStarts(s) {
				wbCase(c, "ascii", s, p)
				wbCase(c, "unicode", s, p)
			}
		}
		return c
	}
	// numbers: all short texts
	fams["numtexts"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		n := textsUpTo(8, numTextLen(tier))
		ps := make([]ParserFn, len(numForms))
		for j, f := range numForms {
			ps[j] = f.p()
		}
		for i := id * numChunk; i < (id+1)*numChunk && i < n; i++ {
			for j, f := range numForms {
				if j < 3 {
					numCase(c, f, ps[j], nthText(numLetters, i), 0)
				} else {
					numCase(c, f, ps[j], nthText(radLetters, i), 0)
				}
			}
		}
		return c
	}
	famSize["numtexts"] = func(seed int64, tier string) int { return (textsUpTo(8, numTextLen(tier)) + numChunk - 1) / numChunk }
	// all short texts behind a text into every state of the number automata
	fams["numdeep"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		ln := 2
		if tier == "thorough" {
			ln = 4
		}
		for i := 0; i < textsUpTo(8, ln); i++ {
			t := numStates[id/3] + nthText(numLetters, i)
			numCase(c, numForms[id%3], numForms[id%3].p(), t, 0)
			if i%5 == 0 {
				numCase(c, numForms[id%3], numForms[id%3].p(), "-"+t, 0)
			}
		}
		return c
	}
	famSize["numdeep"] = func(int64, string) int { return 3 * len(numStates) }
	// every byte behind every state of the number automata
	fams["numbytes"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		j, pre := id%3, ""
		if id < 3*len(numStates) {
			pre = numStates[id/3]
		} else {
			j, pre = 3+id%3, radStates[(id-3*len(numStates))/3]
		}
		p := numForms[j].p()
		for b := 0; b < 256; b++ {
			t := pre + string([]byte{byte(b)})
			numCase(c, numForms[j], p, t, 0)
			if tier == "thorough" || b < 128 && (id+b)%4 == 0 {
				numCase(c, numForms[j], p, t+oneOf(caseRand(seed, "numbytes", id*256+b), "0", "1", ".5", "e1", "_"), 0)
			}
		}
		for _, ch := range digitLike {
			numCase(c, numForms[j], p, pre+string(ch), 0)
		}
		return c
	}
	famSize["numbytes"] = func(int64, string) int { return 3 * (len(numStates) + len(radStates)) }
	fams["lexcase"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "lexcase", id)
		c := &Cases{}
		for k := 0; k < 20; k++ {
			f := numForms[r.Intn(len(numForms))]
			al := []string{"0", "1", "5", "9", "_", "__", ".", "e", "E", "+", "-", "e+", "e-1", "7", "A", "f", "g", " ", "é"}
			s := atomText(r, al, 12)
			if r.Intn(4) == 0 {
				s = strings.Repeat([]string{"9", "1", "0", "f"}[r.Intn(4)], 1+r.Intn(30)) + s
			}
			if r.Intn(6) == 0 {
				s += "e" + []string{"", "-", "+"}[r.Intn(3)] + []string{"308", "309", "400", "9999", "99999999999999999999"}[r.Intn(5)]
			}
			pos := 0
			if r.Intn(3) == 0 {
				pos = r.Intn(len(s) + 1)
			}
			numCase(c, f, f.p(), s, pos)
			s = atomText(r, idAtoms, 8)
			pos = 0
			if r.Intn(3) == 0 {
				rs := runeStarts(s)
				pos = rs[r.Intn(len(rs))]
			}
			idCase(c, []string{"ascii", "unicode"}[r.Intn(2)], s, pos)
		}
		return c
	}
	fams["idsweep"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		p := extra.UnicodeIdentifierStr()
		c.add(D{"k": "classes", "what": []string{"idstart", "idcont"}[id]}, func(d D) {
			d["combos"], d["total"] = sweepClasses(identRune(p, id == 0))
		})
		return c
	}
	famSize["idsweep"] = func(int64, string) int { return 2 }
}

func swapCase(r *rand.Rand, s string) string {
	o := ""
	for _, c := range s {
		or := orbit(c)
		o += string(or[r.Intn(len(or))])
	}
	return o
}
