package main

// C08: the stock predicates of the stack-matching parser, called directly, over every pair of a predicate with a
// subset of its values and a stack whose top holds a value of any kind.

import . "github.com/shellyln/takenoco/base"

var predVals = map[string][][]int{
	"rune": {bytesJ("49"), bytesJ("-1"), bytesJ("0")}, "int": {bytesJ("49"), bytesJ("-9223372036854775808"), bytesJ("0")},
	"uint": {bytesJ("49"), bytesJ("18446744073709551615"), bytesJ("0")}, "float": {bytesJ("49"), bytesJ("-0.5"), bytesJ("0"), bytesJ("-0"), bytesJ("NaN")},
	"bool": {{1}, {0}}, "str": {bytesJ("49"), bytesJ("1"), {}},
}
var predKinds = []string{"rune", "int", "uint", "float", "bool", "str"}

// predTops are ASTs with values of every kind; those of different kinds share their texts.
func predTops() []AstV {
	var l []AstV
	ty := map[string]string{"rune": "Rune", "int": "Int", "uint": "Uint", "float": "Float", "bool": "Bool", "str": "String"}
	for _, k := range predKinds {
		for _, v := range predVals[k] {
			l = append(l, AstV{Cn: "z", Ty: ty[k], Vt: k, Vb: v})
		}
		l = append(l, AstV{Cn: "z", Ty: "Any", Vt: k, Vb: predVals[k][0]}) // the tag does not matter
	}
	one, two := intAst("i", 1), intAst("i", 2)
	return append(l, AstV{Cn: "n", Ty: "Nil", Vt: "nil"}, AstV{Cn: "n", Ty: "Int", Vt: "nil"},
		AstV{Ty: "ListOfAny", Vt: "slice"}, AstV{Ty: "ListOfAny", Vt: "slice", Vb: []int{1}}, AstV{Ty: "ListOfAny", Vt: "slice", Vb: []int{1, 2}},
		AstV{Ty: "ListOfAst", Vt: "list"}, AstV{Ty: "ListOfAst", Vt: "list", Ch: []AstV{one}}, AstV{Ty: "ListOfAst", Vt: "list", Ch: []AstV{two}},
		AstV{Ty: "AstCons", Vt: "cons", Ch: []AstV{one, two}}, AstV{Ty: "AstCons", Vt: "cons", Ch: []AstV{two, one}})
}

func subsets(n int) [][]int {
	var l [][]int
	for m := 0; m < 1<<n; m++ {
		s := []int{}
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		l = append(l, s)
	}
	return l
}

// allPreds lists the predicates: each kind with each subset of its values, TopIs with one or two values of any
// kinds, and the one that always holds.
func allPreds() []Pr {
	l := []Pr{{K: "any"}, {K: "is"}}
	for _, k := range predKinds {
		for _, s := range subsets(len(predVals[k])) {
			p := Pr{K: k, Vs: [][]int{}}
			for _, i := range s {
				p.Vs = append(p.Vs, predVals[k][i])
			}
			l = append(l, p)
		}
	}
	tops := predTops()
	for i, a := range tops {
		l = append(l, Pr{K: "is", Is: []PredV{{a.Vt, a.Vb, a.Ch}}})
		b := tops[(i*7+5)%len(tops)]
		l = append(l, Pr{K: "is", Is: []PredV{{a.Vt, a.Vb, a.Ch}, {b.Vt, b.Vb, b.Ch}}})
	}
	return l
}

func init() {
	famSize["preds"] = func(int64, string) int { return len(allPreds()) }
	fams["preds"] = func(seed int64, tier string, id int) TCase {
		p := allPreds()[id]
		f := (&Builder{}).pred(0, 0, p)
		c := &Cases{}
		one := func(li []AstV) {
			c.add(D{"pr": p.J(), "li": astsJ(li)}, func(d D) {
				in := mks(li)
				d["yes"] = bit(f(in))
				d["same"] = bit(sameJ(astsJ(snaps(in)), astsJ(li)))
				d["again"] = bit(f(in))
			})
		}
		tops := predTops()
		one(nil)
		for i, a := range tops {
			one([]AstV{a})
			b := tops[(i*11+id)%len(tops)]
			one([]AstV{a, b})
			one([]AstV{a, a, b})
		}
		return c
	}
	_ = TopIsAny
}
