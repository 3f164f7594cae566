package main

// Sessions written by the specification (MachineGen), read back.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

type jAct struct {
	R, M string
	Adv  int
	As   []jAst
	U    int
}

type jAst struct{ AstV }

func (a *jAst) UnmarshalJSON(b []byte) error {
	var x []json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if len(x) != 8 {
		return fmt.Errorf("ast %s", b)
	}
	var ch []jAst
	for i, to := range []interface{}{&a.Cn, &a.Ty, &a.Vt, &a.Vb, &ch, &a.P, &a.Len, &a.Op} {
		if err := json.Unmarshal(x[i], to); err != nil {
			return err
		}
	}
	a.Ch = astVs(ch)
	return nil
}

func astVs(as []jAst) []AstV {
	var r []AstV
	for _, a := range as {
		r = append(r, a.AstV)
	}
	return r
}

func (a jAct) act(how int) Act {
	return Act{R: a.R, M: a.M, How: how, Adv: a.Adv, As: astVs(a.As), U: a.U}
}

type jTr struct {
	T, Cn, M string
	Lg       bool
	N        int
	Ast      *jAst
}

func trOf(ts []jTr) []Tr {
	var r []Tr
	for _, t := range ts {
		x := Tr{T: t.T, Lg: t.Lg, N: t.N, Cn: t.Cn, M: t.M}
		if t.Ast != nil {
			x.Ast = t.Ast.AstV
		}
		r = append(r, x)
	}
	return r
}

type jPr struct {
	K, Cn string
	N, D  int
	Vs    json.RawMessage
}

func (p jPr) pr() Pr {
	r := Pr{K: p.K, Cn: p.Cn, N: p.N, D: p.D}
	if p.Vs != nil {
		check(json.Unmarshal(p.Vs, &r.Vs))
	}
	return r
}

type jNode struct {
	Op         string
	Ch         []int
	Lg         bool
	S          []int
	To         int
	Ss         [][]int
	Rs         [][2]int
	Mn, Mx     int
	Ng, Ex, Rw bool
	Tr         []jTr
	Fn         *struct {
		K         string
		Rounds    []jAct
		Rest, Fin jAct
	}
	As    []jAst
	M     string
	Cases []struct {
		Pr jPr
		Tr []jTr
	}
	N  int
	On int
	T  jAct
	E  jAct
	Bl bool
	Vs []int
	Pr *jPr
}

func (x jNode) node(how int) *Node {
	n := &Node{Op: x.Op, Lg: x.Lg, S: toStr(x.S), Src: x.To - 1, RS: x.Rs, Mn: x.Mn, Mx: x.Mx, Ng: x.Ng, Ex: x.Ex,
		Rw: x.Rw, Tr: trOf(x.Tr), As: astVs(x.As), M: x.M, N: x.N, On: x.On, Vs: x.Vs}
	if x.Pr != nil {
		n.Pr = x.Pr.pr()
	}
	for _, c := range x.Ch {
		n.Ch = append(n.Ch, c-1)
	}
	for _, s := range x.Ss {
		n.SS = append(n.SS, toStr(s))
	}
	if x.Fn != nil && x.Fn.K == "fn" {
		// how 2 (status without an error value) carries no text
		n.Fn = &Fn{Rest: x.Fn.Rest.act(how % 2), Fin: x.Fn.Fin.act(how % 2)}
		for _, r := range x.Fn.Rounds {
			n.Fn.Rounds = append(n.Fn.Rounds, r.act(how%2))
		}
	}
	n.T, n.E = x.T.act(how%2), x.E.act(how%2)
	for _, c := range x.Cases {
		n.Cases = append(n.Cases, CaseV{c.Pr.pr(), trOf(c.Tr)})
	}
	return n
}

type jSession struct {
	G    []jNode
	Kind string
	Fold [][2]int
	Src  [][]int
	Runs []struct {
		N, S, P int
		A       []jAst
	}
}

var (
	specOnce  sync.Once
	specLines [][]byte
)

func loadSpec() {
	specOnce.Do(func() {
		f, err := os.Open(os.Getenv("VERIF_SESSIONS"))
		check(err)
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			specLines = append(specLines, append([]byte{}, sc.Bytes()...))
		}
		check(sc.Err())
	})
}

func specSession(id int) *Session {
	loadSpec()
	if id >= len(specLines) {
		return nil
	}
	var j jSession
	check(json.Unmarshal(specLines[id], &j))
	s := &Session{Srcs: j.Src, Fold: j.Fold, ObjKind: j.Kind, Log: "all", Budget: 1 << 20, Note: "spec"}
	for _, n := range j.G {
		s.G = append(s.G, n.node(id))
	}
	for _, r := range j.Runs {
		s.Runs = append(s.Runs, Run{N: r.N - 1, S: r.S - 1, P: r.P, A: astVs(r.A), Cap: 20})
	}
	return s
}

func init() {
	fams["spec"] = func(seed int64, tier string, id int) TCase {
		if s := specSession(id); s != nil {
			return s
		}
		return nil
	}
	famSize["spec"] = func(seed int64, tier string) int { loadSpec(); return len(specLines) }
}
