package main

// Case lists: calls of one function on many inputs, one record per list.

import (
	"fmt"
	"sync"
)

type Cases struct {
	in  []D
	run []func(D)
	end string
	gs  int // goroutines that share the cases; 0: none
}

// add registers a case: its input fields, and the call that fills in the outcome.
func (c *Cases) add(in D, run func(D)) {
	c.in = append(c.in, in)
	c.run = append(c.run, run)
}

func (c *Cases) exec() {
	if c.gs > 0 {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < c.gs; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-gate
				for i := g; i < len(c.in); i += c.gs {
					c.one(i)
				}
			}(g)
		}
		close(gate)
		wg.Wait()
		c.end = "done"
		return
	}
	for i := range c.in {
		c.one(i)
	}
	c.end = "done"
}

func (c *Cases) one(i int) {
	d := c.in[i]
	d["pn"] = 0
	defer func() {
		if r := recover(); r != nil {
			d["pn"] = 1
			d["pm"] = fmt.Sprint(r)
		}
	}()
	c.run[i](d)
}

func (c *Cases) setEnd(kind string) { c.end = kind }

func (c *Cases) J(id int) D {
	l := L{}
	if c.end == "done" {
		for _, d := range c.in {
			l = append(l, d)
		}
	}
	return D{"id": id, "end": c.end, "cases": l}
}

// textsUpTo counts the texts of length at most n over k letters; nthText gives them in order.
func textsUpTo(k, n int) int {
	t, p := 0, 1
	for i := 0; i <= n; i++ {
		t += p
		p *= k
	}
	return t
}

func nthText(letters []string, i int) string {
	k := len(letters)
	p, n := 1, 0
	for i >= p {
		i -= p
		p *= k
		n++
	}
	s := ""
	for j := 0; j < n; j++ {
		s = letters[i%k] + s
		i /= k
	}
	return s
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// The same calls by several goroutines at the same time.
func init() {
	for _, f := range []string{"formula", "csv", "csvrec", "conv", "transdirect", "lexcase", "wbcase", "leafcase", "datetime", "locbig", "treeeq"} {
		f := f
		fams["par-"+f] = func(seed int64, tier string, id int) TCase {
			c := fams[f](seed, tier, id).(*Cases)
			c.gs = 2 + id%5
			return c
		}
	}
}
