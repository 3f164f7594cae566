package main

// One parser value used by several goroutines at the same time (built with the
// race detector).  Every goroutine's parses are recorded; the factories of lazily
// built parsers and the entries into what they built are put in one order.

import (
	"fmt"
	"runtime"
	"sync"
)

type lazyLog struct {
	mu sync.Mutex
	ev []L
}

func (l *lazyLog) add(e ...interface{}) {
	l.mu.Lock()
	if len(l.ev) < 4000 {
		l.ev = append(l.ev, e)
	}
	l.mu.Unlock()
}

// Conc is a session whose parses are spread over goroutines.
type Conc struct {
	S    *Session
	Gs   int
	Runs [][]Run
	lazy bool // record the order of factory calls instead of the results
	ll   lazyLog
	ev   []L
	end  string
}

func (c *Conc) setEnd(kind string) { c.ev = []L{{kind}}; c.end = "done"; c.ll.ev = []L{{kind, 0, 0}} }

func (c *Conc) J(id int) D {
	if c.lazy {
		return D{"id": id, "n": c.Gs, "ev": append(L{}, anys(c.ll.ev)...), "nodes": len(c.S.G)}
	}
	c.S.Runs = nil
	for _, rs := range c.Runs {
		c.S.Runs = append(c.S.Runs, rs...)
	}
	c.S.ev, c.S.end, c.S.Log = c.ev, "done", "root"
	d := c.S.J(id)
	d["goroutines"] = c.Gs
	return d
}

func (c *Conc) exec() {
	s := c.S
	b := newBuilder(s.G, s.ObjKind, s.Srcs, false)
	if c.lazy {
		b.lazy = &c.ll
	}
	for i := range s.G {
		b.get(i, false)
	}
	evs := make([][]L, c.Gs)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for g := 0; g < c.Gs; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rec := newRec(1<<20, g+1)
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(cutSignal); !ok {
						rec.ev = append(rec.ev, L{"panic", fmt.Sprint(r)})
					}
				}
				evs[g] = rec.ev
			}()
			<-gate
			first := 0 // runs of the sessions before
			for _, rs := range c.Runs[:g] {
				first += len(rs)
			}
			for k, r := range c.Runs[g] {
				rec := rec.parse(b, first+k+1, r.S)
				ctx := rec.start(r, k+g)
				stack := ctx.AstStack
				out, err := b.get(r.N, false)(ctx)
				rec.log(b.retEvent(r.N+1, &out, err)...)
				rec.log("o", astsJ(snaps(stack)))
				runtime.Gosched()
			}
		}(g)
	}
	close(gate)
	wg.Wait()
	for _, e := range evs {
		c.ev = append(c.ev, e...)
	}
}

func concCase(seed int64, fam, profile string, id int, lazy bool) *Conc {
	r := caseRand(seed, fam, id)
	p := *profs[profile]
	p.Runs = 5
	p.Log = "root"
	var s *Session
	for {
		s = genSession(r, &p)
		if !lazy {
			break
		}
		n := 0
		for _, x := range s.G {
			x.Fresh = false
			if x.Op == "ind" {
				n++
			}
		}
		if n > 0 {
			break
		}
	}
	c := &Conc{S: s, Gs: 2 + r.Intn(5), lazy: lazy, end: "done"}
	for g := 0; g < c.Gs; g++ {
		var rs []Run
		for k := 2 + r.Intn(3); k > 0; k-- {
			rs = append(rs, s.Runs[r.Intn(len(s.Runs))])
		}
		if lazy {
			rs = rs[:2]
		}
		c.Runs = append(c.Runs, rs)
	}
	return c
}

func init() {
	fams["conc"] = func(seed int64, tier string, id int) TCase {
		return concCase(seed, "conc", []string{"reuse", "lazy", "mix", "obj-int", "reuse-obj"}[id%5], id, false)
	}
	fams["conclazy"] = func(seed int64, tier string, id int) TCase {
		return concCase(seed, "conclazy", "lazy", id, true)
	}
}
