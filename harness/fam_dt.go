package main

// C18: dates and times.

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
)

var dtForms = []struct {
	name string
	p    func() ParserFn
	conv TransformerFn
}{
	{"date", extra.DateStr, extra.ParseDate},
	{"time", extra.TimeStr, extra.ParseTime},
	{"datetime", extra.DateTimeStr, extra.ParseDateTime},
}

func dtCase(c *Cases, j int, src string, pos int) {
	f := dtForms[j]
	c.add(D{"form": f.name, "src": bytesJ(src), "p": pos}, func(d D) {
		d["o"] = runOne(f.p(), src, pos)
		v := D{"st": "none", "d": 0, "s": 0, "n": 0, "cn": "", "ty": "", "utc": 0}
		d["v"] = v
		out, err := Trans(f.p(), f.conv)(ParserContext{Str: src, SourcePosition: SourcePosition{Position: pos}})
		if err != nil || out.MatchStatus == MatchStatus_Error {
			v["st"] = "error"
		} else if out.MatchStatus == MatchStatus_Matched {
			v["st"] = "other"
			if len(out.AstStack) == 1 {
				a := out.AstStack[0]
				if t, ok := a.Value.(time.Time); ok {
					u := t.Unix()
					day := u / 86400
					if u%86400 < 0 {
						day--
					}
					v["st"], v["cn"], v["ty"] = "value", clsName(a.ClassName), typeNames[a.Type]
					v["d"], v["s"], v["n"] = int(day), int(u-day*86400), t.Nanosecond()
					_, off := t.Zone()
					v["utc"] = bit(t.Location() == time.UTC && off == 0)
				}
			}
		}
	})
}

func oneOf(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

func dtDate(r *rand.Rand) string {
	y := fmt.Sprintf("%04d", r.Intn(10000))
	switch r.Intn(8) {
	case 0:
		y = oneOf(r, "0000", "0001", "9999", "1970", "1969", "2000", "1900", "2100", "2400")
	case 1:
		y = oneOf(r, "-", "-0", "1", "0", "99999", "-99", "+") + y
	case 2:
		y = y[:r.Intn(4)]
	}
	m := fmt.Sprintf("%02d", 1+r.Intn(12))
	d := fmt.Sprintf("%02d", 1+r.Intn(31))
	if r.Intn(4) == 0 {
		m, d = "02", oneOf(r, "28", "29", "30")
	}
	if r.Intn(5) == 0 {
		d = oneOf(r, "00", "31", "30", "32", "39")
	}
	if r.Intn(8) == 0 {
		m = oneOf(r, "00", "13", "19", "20", "1")
	}
	return y + "-" + m + "-" + d
}

func dtTime(r *rand.Rand) string {
	h := fmt.Sprintf("%02d", r.Intn(24))
	if r.Intn(8) == 0 {
		h = oneOf(r, "23", "24", "25", "29", "30", "00")
	}
	s := h + ":" + fmt.Sprintf("%02d", r.Intn(60))
	if r.Intn(12) == 0 {
		s = h + ":" + oneOf(r, "60", "99", "5")
	}
	if r.Intn(4) > 0 {
		s += ":" + fmt.Sprintf("%02d", r.Intn(60))
		if r.Intn(10) == 0 {
			s = s[:len(s)-2] + oneOf(r, "60", "61", "69", "70", "5")
		}
		if r.Intn(3) > 0 {
			s += "." + fmt.Sprintf("%012d", r.Int63n(1e12))[:r.Intn(13)]
		}
	}
	return s
}

func dtZone(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return "Z"
	}
	z := oneOf(r, "+", "-") + fmt.Sprintf("%02d:%02d", r.Intn(24), r.Intn(60))
	if r.Intn(5) == 0 {
		z = oneOf(r, "+24:00", "-24:01", "+25:00", "-99:59", "+00:00", "-00:00", "+23:59", "-23:59", "+05:60", "+0530", "+05", "", "z", "-12:3")
	}
	return z
}

func init() {
	fams["datetime"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "datetime", id)
		c := &Cases{}
		for k := 0; k < 30; k++ {
			j := r.Intn(3)
			var s string
			switch j {
			case 0:
				s = dtDate(r)
			case 1:
				s = dtTime(r)
			default:
				s = dtDate(r) + "T" + dtTime(r) + dtZone(r)
				if r.Intn(3) == 0 {
					s = fmt.Sprintf("%04d", r.Intn(10000)) + oneOf(r, "-12-31T23:", "-01-01T00:", "-01-01T0", "-02-28T23:", "-03-01T00:", "-02-29T12:") +
						fmt.Sprintf("%02d", r.Intn(60)) + oneOf(r, "", ":59", ":00.5") + dtZone(r)
				}
			}
			switch r.Intn(8) {
			case 0: // one character changed
				if len(s) > 0 {
					i := r.Intn(len(s))
					s = s[:i] + oneOf(r, "0", "9", "/", ":", "-", "T", ".", "Z", "+", ",", "٣", "t", " ") + s[i+1:]
				}
			case 1: // cut
				s = s[:r.Intn(len(s)+1)]
			case 2:
				s += oneOf(r, "0", "T", " ", "x", ":00", "é")
			}
			pos := 0
			if r.Intn(4) == 0 {
				pre := oneOf(r, "2", "-", "x ", "é", "2020-01-01")
				s, pos = pre+s, len(pre)
			}
			dtCase(c, j, s, pos)
			if r.Intn(10) == 0 && !strings.ContainsAny(s, "T") {
				dtCase(c, (j+1)%3, s, pos)
			}
		}
		return c
	}
	// every byte in every place of well-formed texts
	fams["dtbytes"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		j, i := 0, id
		for i > len(dtBases[j].s) {
			i -= len(dtBases[j].s) + 1
			j++
		}
		s, f := dtBases[j].s, dtBases[j].form
		put := func(x string) {
			dtCase(c, f, s[:i]+x+s[min(i+1, len(s)):], 0)
			if tier == "thorough" {
				dtCase(c, f, s[:i]+x+s[i:], 0)
			}
		}
		for b := 0; b < 128; b++ {
			put(string([]byte{byte(b)}))
		}
		for _, b := range []int{0x80, 0xb0, 0xb1, 0xc3, 0xff} {
			put(string([]byte{byte(b)}))
		}
		for _, ch := range digitLike {
			put(string(ch))
		}
		return c
	}
	famSize["dtbytes"] = func(int64, string) int {
		n := 0
		for _, b := range dtBases {
			n += len(b.s) + 1
		}
		return n
	}
	// ends of months and years, moved over by the offset
	fams["rollover"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		r := caseRand(seed, "rollover", id)
		y := dayYears[id]
		if id >= len(dayYears)-6 {
			y = r.Intn(10000)
		}
		for m := 1; m <= 12; m++ {
			last := time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day()
			for _, d := range []int{1, last} {
				for _, t := range []string{"00:30:00", "23:30:59.999999999"} {
					for _, z := range []string{"+", "-"} {
						z += oneOf(r, "00:31", "01:00", "00:29", "05:45", "12:00", "23:59", "14:00")
						dtCase(c, 2, fmt.Sprintf("%04d-%02d-%02dT%s%s", y, m, d, t, z), 0)
					}
				}
			}
		}
		return c
	}
	famSize["rollover"] = func(int64, string) int { return len(dayYears) }
	// every day of some years
	fams["days"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		y := dayYears[id]
		if id >= len(dayYears)-6 {
			y = caseRand(seed, "days", id).Intn(10000)
		}
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				dtCase(c, 0, fmt.Sprintf("%04d-%02d-%02d", y, m, d), 0)
			}
		}
		return c
	}
	famSize["days"] = func(int64, string) int { return len(dayYears) }
	// every minute and second; every offset
	fams["clock"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		switch {
		case id < 30:
			for m := 0; m < 61; m++ {
				dtCase(c, 1, fmt.Sprintf("%02d:%02d", id, m), 0)
				dtCase(c, 1, fmt.Sprintf("%02d:17:%02d.5", id, m), 0)
				dtCase(c, 2, fmt.Sprintf("2024-02-29T%02d:%02d:01Z", id, m), 0)
			}
		default:
			for m := 0; m < 61; m++ {
				for _, sg := range []string{"+", "-"} {
					dtCase(c, 2, fmt.Sprintf("2023-12-31T23:30%s%02d:%02d", sg, id-30, m), 0)
				}
			}
		}
		return c
	}
	famSize["clock"] = func(int64, string) int { return 56 }
}

var dtBases = []struct {
	s    string
	form int
}{{"2024-02-29", 0}, {"1987-11-05", 0}, {"23:59", 1}, {"07:08:56", 1}, {"19:00:01.123456789", 1},
	{"2024-12-31T13:45:59.5+05:30", 2}, {"2001-09-10T02:46Z", 2}, {"1969-10-30T20:17:40-11:00", 2}}

var dayYears = []int{0, 1, 4, 100, 400, 1582, 1752, 1899, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 2400, 9996, 9999, 0, 0, 0, 0, 0, 0}
