package main

// C21: the location report, on all short texts over tabs, line breaks and a letter,
// and on long random ones.

import (
	. "github.com/shellyln/takenoco/base"
	"strings"
)

var locTabs = []int{4, 1, 0, 2, 8}

func locCase(c *Cases, src string, p, tab int) {
	c.add(D{"src": bytesJ(src), "p": p, "tab": tab}, func(d D) {
		in := SourcePosition{Position: p, Length: 1}
		r := GetLineAndColPosition(src, in, tab)
		d["line"], d["col"], d["li"], d["pos"] = r.Line, r.Col, r.LineIndex, r.Position
		d["ex"] = bytesJ(r.ErrSource)
	})
}

const locChunk = 40

func locLen(tier string) int {
	if tier == "thorough" {
		return 7
	}
	return 5
}

func init() {
	letters := []string{"a", "\t", "\r", "\n"}
	fams["loc"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		n := textsUpTo(4, locLen(tier))
		for i := id * locChunk; i < (id+1)*locChunk && i < n; i++ {
			s := nthText(letters, i)
			for p := 0; p <= len(s); p++ {
				for _, tab := range locTabs {
					locCase(c, s, p, tab)
				}
			}
		}
		return c
	}
	famSize["loc"] = func(seed int64, tier string) int {
		return (textsUpTo(4, locLen(tier)) + locChunk - 1) / locChunk
	}
	// texts of many lines, and long lines
	famSize["loclong"] = func(seed int64, tier string) int { return 40 }
	fams["loclong"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		ends := []string{"\n", "\r", "\r\n", "\r\n\r\n", "\n\r"}
		end := ends[id%5]
		line := []string{"", "ab", "\t", "x\ty"}[id/5%4]
		n := []int{127, 255, 256, 1024, 2500}[id%5]
		if id/20 == 1 {
			n = []int{513, 700, 1025, 257, 300}[id%5]
		}
		switch id % 20 {
		case 7:
			n = 33000
		case 0:
			n = 70000
		}
		if tier == "thorough" {
			n = n*3 + 1
		}
		s := strings.Repeat(line+end, n)
		w := len(line + end)
		for _, p := range []int{len(s), len(s) - 1, len(s) - w, n / 2 * w, n/2*w + 1, len(s) - w - 1} {
			locCase(c, s, p, 4)
		}
		long := strings.Repeat(line+"-", n%1024)
		if id == 3 {
			long = strings.Repeat("-", 66000)
		}
		locCase(c, "first"+end+long+end+"last", 5+len(end)+len(long), 3)
		locCase(c, long+end+"last", len(long)/2, 1)
		return c
	}
	fams["locbig"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "locbig", id)
		c := &Cases{}
		al := []string{"a", "b", " ", "\t", "\r", "\n", "\r\n", "é", "漢", "\n\r", "\x00", "\v", "\f", "\u0085", "\u2028", "|", ">", "^"}
		for k := 0; k < 10; k++ {
			s := ""
			al2 := append([]string{}, al[:2+r.Intn(len(al)-2)]...)
			r.Shuffle(len(al2), func(i, j int) { al2[i], al2[j] = al2[j], al2[i] })
			m := r.Intn(60)
			if k == 0 {
				m = 300
			}
			for i := 0; i < m; i++ {
				if r.Intn(3) == 0 {
					s += "x"
				} else {
					s += al2[r.Intn(len(al2))]
				}
			}
			for j := 0; j < 4; j++ {
				locCase(c, s, r.Intn(len(s)+1), r.Intn(9))
			}
			locCase(c, s, len(s), 4)
			locCase(c, s, 0, 4)
		}
		return c
	}
}
