package main

// C16: debug tracing.  The parsers with callbacks of the harness ("hl", "custom")
// are recognised by their class names; all others are the library's own.

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	. "github.com/shellyln/takenoco/base"
)

type traceLog struct {
	rec *Rec
	id  int
	cut *bool
}

func (t traceLog) event(kind, scope string, no int, cn string, more ...interface{}) {
	if *t.cut {
		return
	}
	path := L{}
	for _, s := range strings.Split(scope, "/") {
		path = append(path, s)
	}
	node := 0
	if len(cn) > 1 && cn[0] == 'n' {
		if k, err := strconv.Atoi(cn[1:]); err == nil {
			node = k
		}
	}
	e := append(L{kind, t.id, path, no, node, cn}, more...)
	if len(t.rec.ev) >= 2*t.rec.budget {
		*t.cut = true
		panic(cutSignal{})
	}
	t.rec.ev = append(t.rec.ev, e)
}

func own(cn string) bool { return len(cn) > 1 && cn[0] == 'n' && cn[1] >= '0' && cn[1] <= '9' }

func (t traceLog) Before(scope string, no int, cn string, ctx *ParserContext) {
	if own(cn) {
		t.event("B", scope, no, cn, ctx.Position, astsJ(snaps(ctx.AstStack)))
	} else {
		t.event("B", scope, no, cn, 0, L{})
	}
}

func (t traceLog) After(scope string, no int, cn string, ctx *ParserContext, err error) {
	k := status(ctx, err)
	if own(cn) && k != "U" {
		as := L{}
		if k == "M" {
			as = astsJ(snaps(ctx.AstStack))
		}
		t.event("A", scope, no, cn, k, errText(err), ctx.Position, as)
	} else {
		t.event("A", scope, no, cn, k, "", 0, L{})
	}
}

func (t traceLog) Panic(scope string, no int, cn string, ctx *ParserContext, r interface{}) {
	if _, ok := r.(cutSignal); ok {
		*t.cut = true
	}
	t.event("P", scope, no, cn, panicText(r))
}

// The panics are a text, an error and a pointer to a structure; each has to come
// out as the very value that went in.
var (
	panicErr = errors.New("a panic")
	panicBox = &struct{ x []int }{[]int{1}}
)

func panicOf(m string) interface{} {
	switch m {
	case "P:2":
		return panicErr
	case "P:3":
		return panicBox
	}
	return m
}

func panicText(r interface{}) string {
	switch r {
	case panicErr:
		return "P:2"
	case panicBox:
		return "P:3"
	}
	if s, ok := r.(string); ok {
		return s
	}
	return fmt.Sprintf("other: %v", r)
}

func (s *Session) execTrace() {
	rec := newRec(s.Budget, 0)
	cut := false
	s.end = "done"
	b := newBuilder(s.G, s.ObjKind, s.Srcs, false)
	b.cur = rec
	b.tracers = []ParserTracer{traceLog{rec, 1, &cut}, traceLog{rec, 2, &cut}, traceLog{rec, 3, &cut}}
	for _, r := range s.Runs {
		b.get(r.N, false)
	}
	for k, r := range s.Runs {
		if cut {
			break
		}
		rec := rec.parse(b, k+1, r.S)
		b.cur = rec
		ctx := rec.start(r, k)
		stack := ctx.AstStack
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(cutSignal); ok {
						cut = true
					} else {
						rec.ev = append(rec.ev, L{"R", "P", panicText(p), 0, L{}})
					}
				}
			}()
			out, err := b.get(r.N, false)(ctx)
			e := b.retEvent(r.N+1, &out, err)
			rec.ev = append(rec.ev, L{"R", e[2], e[3], e[4], e[5]})
		}()
		if !cut {
			rec.ev = append(rec.ev, L{"o", astsJ(snaps(stack))})
		}
	}
	if cut {
		s.end = "cut"
	}
	s.ev = rec.ev
}

var traceProf = prof(mixProf, func(p *Prof) {
	p.Comp = []W{{"dbg", 30}, {"flat", 14}, {"first", 12}, {"custom", 24}, {"opt", 5}, {"star", 4}, {"rep", 4}, {"la", 4}, {"lan", 3},
		{"lb", 3}, {"lbn", 3}, {"trans", 5}, {"match", 4}, {"if", 3}, {"ind", 14}, {"group", 3}}
	p.Leafs = append(append([]W{}, allLeafs...), W{"hl", 60}, W{"error", 3})
	p.Errors, p.Panics, p.Rules = 6, 5, 2
	p.Runs, p.Log, p.Budget = 3, "trace", 600
})

func traceSession(r *rand.Rand) *Session {
	s := genSession(r, traceProf)
	for _, n := range s.G {
		n.Fresh, n.Raw = false, false
		n.Lg = n.Op == "custom" || n.Op == "hl"
		for i := range n.Tr {
			n.Tr[i].Lg = false
		}
		for i := range n.Cases {
			for j := range n.Cases[i].Tr {
				n.Cases[i].Tr[j].Lg = false
			}
		}
	}
	return s
}

func init() {
	traceProf.Name = "tracer"
	fams["tracer"] = func(seed int64, tier string, id int) TCase {
		return traceSession(caseRand(seed, "tracer", id))
	}
}
