package main

// Engine families: random grammars by profile.

import "math/rand"

var allLeafs = []W{{"seq", 30}, {"any", 8}, {"range", 6}, {"rangeN", 4}, {"class", 8}, {"classN", 5},
	{"classFn", 4}, {"end", 4}, {"start", 3}, {"zero", 6}, {"unmatched", 3}, {"hl", 10}, {"alpha", 2}, {"alnum", 1}}
var tokLeafs = []W{{"seq", 30}, {"any", 10}, {"class", 8}, {"end", 3}, {"start", 2}, {"zero", 8}, {"unmatched", 2}, {"range", 4}}
var allComp = []W{{"flat", 20}, {"first", 20}, {"group", 6}, {"la", 5}, {"lan", 5}, {"lb", 4}, {"lbn", 4},
	{"once", 3}, {"opt", 6}, {"star", 6}, {"plus", 4}, {"rep", 8}, {"trans", 10}, {"match", 8}, {"custom", 8},
	{"if", 2}, {"ind", 5}}
var spanLeafs = []W{{"seq", 12}, {"seqi", 10}, {"any", 12}, {"range", 6}, {"rangeN", 6}, {"class", 8}, {"classN", 6},
	{"classFn", 6}, {"end", 2}, {"start", 2}, {"zero", 8}, {"ws", 4}, {"wsnl", 4}, {"lbk", 3}, {"alpha", 4}, {"num", 3},
	{"alnum", 3}, {"bin", 2}, {"oct", 2}, {"hex", 2}, {"wb", 3}}
var objLeafs = []W{{"oany", 12}, {"oend", 8}, {"oseq", 25}, {"oclass", 20}, {"oclassN", 15}, {"ofn", 15}, {"zero", 3}, {"hl", 3}}

var abc = []string{"a", "b", "c"}

// spanSigma has no letter whose case folding changes the number of bytes.
var spanSigma = []string{"a", "B", "7", " ", "\t", "\n", "é", "世", "😀", "0", "_", "\u00a0", "\u0085", "f", "ß"}

func prof(base Prof, f func(p *Prof)) *Prof { f(&base); return &base }

var mixProf = Prof{Comp: allComp, Leafs: allLeafs, Sigma: abc, Size: [2]int{4, 24}, Depth: 6, Runs: 4, Init: true, Errors: 3, Rules: 1}

var profs = map[string]*Prof{
	"mix": &mixProf,
	"choice": prof(mixProf, func(p *Prof) {
		p.Comp = []W{{"flat", 30}, {"first", 30}, {"group", 6}, {"if", 3}, {"ind", 10}, {"opt", 6}, {"star", 4}, {"lan", 3}}
		p.Leafs, p.Rules, p.Errors = tokLeafs, 2, 0
	}),
	"repeat": prof(mixProf, func(p *Prof) {
		p.Comp = []W{{"flat", 12}, {"first", 10}, {"once", 6}, {"opt", 10}, {"star", 14}, {"plus", 12}, {"rep", 30}, {"group", 3}}
		p.Leafs, p.Errors = tokLeafs, 0
		p.Sigma = abc[:2]
	}),
	"back": prof(mixProf, func(p *Prof) {
		p.Tags = 15
		p.Comp = []W{{"flat", 20}, {"first", 24}, {"opt", 10}, {"rep", 12}, {"trans", 14}, {"match", 14}, {"custom", 6},
			{"la", 4}, {"lan", 4}, {"lb", 3}, {"lbn", 3}, {"group", 4}, {"star", 6}}
		p.Leafs = []W{{"seq", 20}, {"any", 8}, {"zero", 16}, {"unmatched", 6}, {"end", 5}, {"hl", 14}, {"class", 6}}
		p.Errors = 1
	}),
	"errors": prof(mixProf, func(p *Prof) {
		p.Errors = 22
		p.Leafs = append(append([]W{}, allLeafs...), W{"error", 8}, W{"hl", 16})
		p.Comp = append(append([]W{}, allComp...), W{"lb", 5}, W{"lbn", 5}, W{"la", 3}, W{"lan", 3}, W{"custom", 12})
	}),
	"look": prof(mixProf, func(p *Prof) {
		p.Tags = 15
		p.Comp = []W{{"flat", 16}, {"first", 10}, {"la", 16}, {"lan", 16}, {"lb", 18}, {"lbn", 18}, {"opt", 4}, {"star", 6}, {"trans", 3}, {"group", 2}, {"custom", 3}, {"match", 3}}
		p.Leafs = []W{{"seq", 24}, {"any", 14}, {"class", 8}, {"end", 6}, {"start", 8}, {"zero", 6}, {"hl", 10}, {"range", 4}, {"rangeN", 4}}
		p.Sigma = []string{"a", "b", "é", "😀"}
	}),
	"trans": prof(mixProf, func(p *Prof) {
		p.Comp = []W{{"flat", 18}, {"first", 8}, {"group", 10}, {"trans", 40}, {"custom", 10}, {"opt", 4}, {"star", 4}, {"la", 3}, {"lan", 2}, {"match", 6}}
		p.Leafs = []W{{"seq", 24}, {"any", 14}, {"zero", 12}, {"class", 6}, {"unmatched", 3}, {"hl", 6}}
		p.Errors = 5
	}),
	"match": prof(mixProf, func(p *Prof) {
		p.Comp = []W{{"flat", 24}, {"first", 14}, {"match", 40}, {"opt", 4}, {"trans", 8}, {"la", 3}, {"lan", 3}, {"rep", 4}}
		p.Leafs = []W{{"seq", 20}, {"any", 10}, {"zero", 24}, {"unmatched", 3}, {"hl", 8}}
		p.Errors = 3
	}),
	"custom": prof(mixProf, func(p *Prof) {
		p.Tags = 15
		p.Comp = []W{{"flat", 14}, {"first", 8}, {"custom", 50}, {"trans", 5}, {"la", 3}, {"lan", 3}, {"star", 3}, {"match", 3}}
		p.Leafs = []W{{"seq", 24}, {"any", 12}, {"zero", 8}, {"unmatched", 5}, {"end", 3}, {"hl", 12}}
		p.Errors = 8
	}),
	"span": prof(mixProf, func(p *Prof) {
		p.Sigma, p.Leafs, p.Errors = spanSigma, spanLeafs, 0
		p.Comp = []W{{"flat", 26}, {"first", 16}, {"group", 4}, {"la", 4}, {"lan", 4}, {"opt", 8}, {"star", 8}, {"plus", 8}, {"rep", 5}, {"trans", 8}, {"ind", 3}}
		p.AllTr = []string{"concat", "trim", "trims", "trime", "group", "id", "setcls", "setop"}
	}),
	"tags": prof(mixProf, func(p *Prof) { p.Tags = 40; p.Reent = true; p.Comp = append(append([]W{}, allComp...), W{"reent", 5}) }),
	"lazy": prof(mixProf, func(p *Prof) {
		p.Comp = []W{{"flat", 20}, {"first", 18}, {"ind", 30}, {"if", 8}, {"opt", 6}, {"star", 4}, {"la", 3}, {"lan", 3}, {"lb", 2}, {"lbn", 2}, {"rep", 4}, {"group", 4}, {"trans", 5}}
		p.Rules, p.Errors, p.Size = 3, 2, [2]int{8, 30}
		p.Sigma = abc[:2]
	}),
	"reuse": prof(mixProf, func(p *Prof) {
		p.Tags = 15
		p.Reent, p.Runs, p.Errors = true, 8, 6
		p.Comp = append(append([]W{}, allComp...), W{"reent", 12}, W{"ind", 8}, W{"match", 6})
		p.Budget = 1600
	}),
	"reuse-obj": prof(mixProf, func(p *Prof) {
		p.Kind = "mix"
		objProf(p)
		p.Reent, p.Runs, p.Errors, p.Budget = true, 8, 4, 1600
		p.Comp = append(append([]W{}, p.Comp...), W{"reent", 8}, W{"ind", 8})
	}),
	"obj-int": prof(mixProf, func(p *Prof) { p.Kind = "int"; objProf(p) }),
	"obj-any": prof(mixProf, func(p *Prof) { p.Kind = "any"; objProf(p) }),
	"obj-ast": prof(mixProf, func(p *Prof) { p.Kind = "ast"; objProf(p) }),
}

func objProf(p *Prof) {
	p.Leafs = objLeafs
	p.Comp = []W{{"flat", 26}, {"first", 18}, {"group", 4}, {"la", 4}, {"lan", 4}, {"lb", 3}, {"lbn", 3}, {"opt", 6},
		{"star", 8}, {"plus", 6}, {"rep", 6}, {"trans", 4}, {"slice", 6}, {"ind", 3}, {"custom", 3}}
	p.AllTr = []string{"id", "rev", "group", "mark", "dup", "setcls", "setop", "pop", "roll"}
	p.Errors = 1
}

func init() {
	for name, p := range profs {
		name, p := name, p
		p.Name = name
		fams[name] = func(seed int64, tier string, id int) TCase {
			return genSession(caseRand(seed, name, id), p)
		}
	}
	fams["big"] = func(seed int64, tier string, id int) TCase {
		return bigSession(caseRand(seed, "big", id), id, tier)
	}
}

// bigSession: round counts, stack heights and nesting depths far above those of
// the random sessions; only whole parses are recorded.
func bigSession(r *rand.Rand, id int, tier string) *Session {
	s := &Session{Log: "root", Note: "big", Budget: 1 << 20}
	add := func(n *Node) int { n.Lg = true; s.G = append(s.G, n); return len(s.G) - 1 }
	seq := func(t string) int { return add(&Node{Op: "seq", S: t}) }
	rep := func(t string, n int) string {
		b := []byte{}
		for i := 0; i < n; i++ {
			b = append(b, t...)
		}
		return string(b)
	}
	run := func(n int, src string) {
		s.Srcs = append(s.Srcs, bytesJ(src))
		s.Runs = append(s.Runs, Run{N: n, S: len(s.Srcs) - 1, Cap: r.Intn(3) * 600})
	}
	n := 150 + r.Intn(300)
	if tier == "thorough" {
		n = 200 + r.Intn(1300)
	}
	switch id % 8 {
	case 0: // a long run of tokens, then the alternative fails and another one starts over
		st := add(&Node{Op: "star", Ch: []int{seq("a")}})
		a1 := add(&Node{Op: "flat", Ch: []int{st, seq("x")}})
		a2 := add(&Node{Op: "rep", Mn: 0, Mx: n / 2, Ch: []int{seq("a")}})
		f := add(&Node{Op: "first", Ch: []int{a1, add(&Node{Op: "flat", Ch: []int{a2, seq("a")}}), seq("b")}})
		run(f, rep("a", n))
		run(f, rep("a", n)+"x")
		run(f, rep("a", n/2))
	case 1: // bounded repetition around the bounds
		k := n
		p := add(&Node{Op: "rep", Mn: k, Mx: k + 2, Ch: []int{seq("a"), seq("b")}})
		for d := -1; d <= 3; d++ {
			run(p, rep("ab", k+d))
		}
		run(p, rep("ab", k)+"a")
	case 2: // nesting depth through a lazily built rule: R = ( R ) | x
		fl := add(&Node{Op: "flat"})
		ind := add(&Node{Op: "ind"})
		fst := add(&Node{Op: "first", Ch: []int{fl, seq("x")}})
		s.G[ind].Ch = []int{fst}
		s.G[fl].Ch = []int{seq("("), ind, seq(")")}
		d := 30 + r.Intn(50)
		run(fst, rep("(", d)+"x"+rep(")", d))
		run(fst, rep("(", d)+"x"+rep(")", d-1))
		run(fst, rep("(", d)+rep(")", d))
	case 3: // mutual recursion: A = a B | a, B = b A | b
		ia, ib := add(&Node{Op: "ind"}), add(&Node{Op: "ind"})
		fa := add(&Node{Op: "first", Ch: []int{add(&Node{Op: "flat", Ch: []int{seq("a"), ib}}), seq("a")}})
		fb := add(&Node{Op: "first", Ch: []int{add(&Node{Op: "flat", Ch: []int{seq("b"), ia}}), seq("b")}})
		s.G[ia].Ch, s.G[ib].Ch = []int{fa}, []int{fb}
		end := add(&Node{Op: "end"})
		root := add(&Node{Op: "flat", Ch: []int{ia, end}})
		d := 20 + r.Intn(30)
		run(root, rep("ab", d))
		run(root, rep("ab", d)+"a")
		run(root, rep("ab", d)+"b")
	case 4: // many transformed groups on one stack
		g := add(&Node{Op: "group", Ch: []int{seq("a"), seq("b")}})
		t := add(&Node{Op: "trans", Ch: []int{add(&Node{Op: "opt", Ch: []int{seq("c")}})}, Tr: []Tr{{T: "dup"}, {T: "mark", Cn: "k1"}}})
		p := add(&Node{Op: "star", Ch: []int{g, t}})
		run(p, rep("abcab", n/4))
	case 5: // stack matching after each token folds the stack
		m := add(&Node{Op: "match", N: 2, Cases: []CaseV{{Pr{K: "min", N: 2}, []Tr{{T: "group"}}}, {Pr{K: "any"}, []Tr{{T: "id"}}}}})
		body := add(&Node{Op: "flat", Ch: []int{seq("a")}})
		root := add(&Node{Op: "flat", Ch: []int{seq("a")}})
		for i := 0; i < 60; i++ {
			s.G[root].Ch = append(s.G[root].Ch, body, m)
		}
		run(root, rep("a", 61))
		run(root, rep("a", 60))
	case 6: // look-behind over a long distance
		lb := add(&Node{Op: "lb", Mn: 0, Mx: n, Ch: []int{add(&Node{Op: "la", Ch: []int{seq("x")}})}})
		st := add(&Node{Op: "star", Ch: []int{seq("a")}})
		p := add(&Node{Op: "flat", Ch: []int{add(&Node{Op: "any"}), st, lb}})
		run(p, "x"+rep("a", n-1))
		run(p, "x"+rep("a", n))
		run(p, "y"+rep("a", n/2))
	case 7: // concatenation of a long token run, inside a choice
		st := add(&Node{Op: "plus", Ch: []int{add(&Node{Op: "any"})}})
		tr := add(&Node{Op: "trans", Ch: []int{st}, Tr: []Tr{{T: "concat"}}})
		f := add(&Node{Op: "first", Ch: []int{add(&Node{Op: "flat", Ch: []int{tr, seq("x")}}), tr}})
		run(f, rep("aé世", n/3))
	}
	return s
}
