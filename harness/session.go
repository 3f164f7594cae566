package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	. "github.com/shellyln/takenoco/base"
	objparser "github.com/shellyln/takenoco/object"
	strparser "github.com/shellyln/takenoco/string"
)

// Run is one parse made with the built grammar.
type Run struct {
	N, S, P int
	A       []AstV
	Cap     int // spare capacity of the caller's stack
	Ms      MatchStatusType
	Qty     int
}

// Session is a grammar, its sources and the parses made with it.
type Session struct {
	G       []*Node
	ObjKind string
	Srcs    [][]int
	Fold    [][2]int
	Runs    []Run
	Log     string
	Budget  int
	Note    string
	ev      []L
	end     string
	events  int
}

func sameJ(a, b L) bool { return reflect.DeepEqual(a, b) }

func (s *Session) J(id int) D {
	g := L{}
	for _, n := range s.G {
		g = append(g, n.J())
	}
	src := L{}
	for _, x := range s.Srcs {
		src = append(src, ints(x))
	}
	fold := L{}
	for _, x := range s.Fold {
		fold = append(fold, L{x[0], x[1]})
	}
	runs := L{}
	for _, r := range s.Runs {
		runs = append(runs, D{"n": r.N + 1, "s": r.S + 1, "p": r.P, "a": astsJ(r.A)})
	}
	log := s.Log
	if log == "trace" {
		log = "all"
	}
	return D{"id": id, "g": g, "src": src, "fold": fold, "runs": runs, "log": log,
		"ev": anys(s.ev), "end": s.end, "note": s.Note}
}

func (s *Session) exec() {
	if s.Log == "trace" {
		s.execTrace()
		return
	}
	rec := newRec(s.Budget, 0)
	if rec.budget == 0 {
		rec.budget = 800
	}
	s.end = "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(cutSignal); ok {
					s.end = "cut"
					return
				}
				rec.ev = append(rec.ev, L{"panic", fmt.Sprint(r)})
			}
		}()
		b := newBuilder(s.G, s.ObjKind, s.Srcs, s.Log == "all")
		b.cur = rec
		for _, r := range s.Runs {
			b.get(r.N, false)
		}
		type res struct {
			st   AstSlice
			snap L
		}
		var results []res
		for k, r := range s.Runs {
			rec := rec.parse(b, k+1, r.S)
			b.cur = rec
			ctx := rec.start(r, k+r.S)
			stack := ctx.AstStack
			out, err := b.get(r.N, false)(ctx)
			if s.Log == "root" {
				rec.log(b.retEvent(r.N+1, &out, err)...)
			}
			if status(&out, err) == "M" {
				results = append(results, res{out.AstStack, astsJ(snaps(out.AstStack))})
			}
			rec.log("o", astsJ(snaps(stack)))
		}
		for _, r := range results {
			if !sameJ(r.snap, astsJ(snaps(r.st))) {
				rec.log("earlier result changed")
			}
		}
	}()
	if s.Log == "root" && s.end == "cut" {
		s.end = "done" // nothing to cut
	}
	s.ev = rec.ev
	s.events = len(rec.ev)
}

// start is the context a parse begins with, written out or from the constructors.
func (s *Rec) start(r Run, how int) ParserContext {
	ctx := ParserContext{Str: s.str, Slice: s.slice, Tag: s}
	stack := make(AstSlice, 0, len(r.A)+r.Cap)
	switch {
	case how%3 == 1 && s.slice == nil:
		ctx = *strparser.NewStringParserContextWithTag(s.str, s)
	case how%3 == 1:
		ctx = *objparser.NewObjectParserContextWithTag(s.slice, s)
	case how%3 == 2 && s.slice == nil:
		ctx = *strparser.NewStringParserContext(s.str)
		ctx.Tag = s
	case how%3 == 2:
		ctx = *objparser.NewObjectParserContext(s.slice)
		ctx.Tag = s
	default:
		ctx.MatchStatus, ctx.Quantity, ctx.ClassName, ctx.Length = r.Ms, r.Qty, "before", 7
	}
	if how%3 > 0 {
		stack = ctx.AstStack
	}
	ctx.AstStack = append(stack, mks(r.A)...)
	ctx.Position += r.P
	return ctx
}

func jline(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

func pickStatus(r interface{ Intn(int) int }) MatchStatusType {
	return []MatchStatusType{MatchStatus_Matched, MatchStatus_Matched, MatchStatus_Unmatched, MatchStatus_Error}[r.Intn(4)]
}

func anys(ev []L) L {
	r := make(L, len(ev))
	for i := range ev {
		r[i] = ev[i]
	}
	return r
}
