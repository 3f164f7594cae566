package main

// C22: comma-separated text.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
)

func runesJ(s string) L {
	l := L{}
	for _, r := range s {
		l = append(l, int(r))
	}
	return l
}

func rowJ(row []string) L {
	l := L{}
	for _, s := range row {
		l = append(l, runesJ(s))
	}
	return l
}

func tableJ(rows [][]string) L {
	l := L{}
	for _, r := range rows {
		l = append(l, rowJ(r))
	}
	return l
}

var locRe = regexp.MustCompile(`Line (\d+), Col (\d+)`)

func csvParse(d D, s, rows string) {
	d["st"], d[rows], d["line"], d["col"] = "err", L{}, -1, -1
	t, err := csv.Parse(s)
	if err == nil {
		d["st"], d[rows] = "ok", tableJ(t)
	} else if m := locRe.FindStringSubmatch(err.Error()); m != nil {
		d["line"], _ = strconv.Atoi(m[1])
		d["col"], _ = strconv.Atoi(m[2])
	}
}

func csvParseCase(c *Cases, s string) {
	c.add(D{"op": "parse", "src": bytesJ(s)}, func(d D) { csvParse(d, s, "rows") })
}

func csvWriteCase(c *Cases, rows [][]string) {
	c.add(D{"op": "write", "rows": tableJ(rows)}, func(d D) {
		s := csv.ToCsv(rows)
		d["text"] = bytesJ(s)
		csvParse(d, s, "back")
	})
}

// records: the field kinds are those of Csv.tla
type csvT1 struct {
	Foo string
	Bar string `csv:"B"`
	N   int
	Big int64 `csv:"big,one"`
}

type csvT2 struct {
	A string `csv:"B"`
	B string `csv:"C"`
	I int8
	U uint64
	W uint16 `csv:" e "`
}

type csvT3 struct {
	X float64
	Y float32 `csv:"y\"q"`
	Z string  `csv:"z\nz"`
	V int64   `csv:"é"`
	K string
}

type csvT4 struct {
	A int16
	B int32 `csv:"A1"`
	C uint8
	D uint32 `csv:"C1"`
	E uint
	F int
}

// ASCII, and characters in and around the classes of whitespace and line breaks
var placeChars = func() []rune {
	l := []rune{}
	add := func(a, b rune) {
		for r := a; r <= b; r++ {
			l = append(l, r)
		}
	}
	add(0, 0x7f)
	add(0x80, 0xa2)
	add(0x109, 0x10d)
	add(0x120, 0x122)
	add(0x12a, 0x12c)
	add(0x167f, 0x1681)
	add(0x180d, 0x180f)
	add(0x1fff, 0x2030)
	add(0x205e, 0x2061)
	add(0x2fff, 0x3001)
	add(0xfefe, 0xff00)
	add(0xff0c, 0xff0c)
	add(0xfffc, 0xfffd)
	add(0x10020, 0x10022)
	return append(l, 0x1d7ce, 0x10ffff, 0x661)
}()

var csvTypes = []reflect.Type{reflect.TypeOf(csvT1{}), reflect.TypeOf(csvT2{}), reflect.TypeOf(csvT3{}), reflect.TypeOf(csvT4{})}

func csvKind(k reflect.Kind) string {
	switch k {
	case reflect.String:
		return "str"
	case reflect.Int8:
		return "8"
	case reflect.Int16:
		return "16"
	case reflect.Int32:
		return "32"
	case reflect.Uint8:
		return "u8"
	case reflect.Uint32:
		return "u32"
	case reflect.Int, reflect.Int64:
		return "64"
	case reflect.Uint16:
		return "u16"
	case reflect.Uint64, reflect.Uint:
		return "u64"
	}
	return "float"
}

func csvFields(t reflect.Type) L {
	l := L{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		l = append(l, D{"name": runesJ(f.Name), "tag": runesJ(f.Tag.Get("csv")), "kind": csvKind(f.Type.Kind())})
	}
	return l
}

// text of a value; floating-point values by their bits (zero is "0")
func csvVal(v reflect.Value) L {
	switch csvKind(v.Kind()) {
	case "str":
		return runesJ(v.String())
	case "8", "16", "32", "64":
		return runesJ(strconv.FormatInt(v.Int(), 10))
	case "u8", "u16", "u32", "u64":
		return runesJ(strconv.FormatUint(v.Uint(), 10))
	}
	return runesJ(strconv.FormatUint(math.Float64bits(v.Float()), 10))
}

func csvRecs(sl reflect.Value) L {
	l := L{}
	for i := 0; i < sl.Len(); i++ {
		row := L{}
		for j := 0; j < sl.Index(i).NumField(); j++ {
			row = append(row, csvVal(sl.Index(i).Field(j)))
		}
		l = append(l, row)
	}
	return l
}

// pre: what the target holds before
func csvRead(d D, t reflect.Type, s string, pre int) {
	d["ust"], d["back"] = "err", L{}
	p := reflect.New(reflect.SliceOf(t))
	if pre > 0 {
		p.Elem().Set(csvRecords(rand.New(rand.NewSource(int64(pre))), t, pre))
	}
	if err := csv.Unmarshal(p.Interface(), s); err == nil {
		d["ust"], d["back"] = "ok", csvRecs(p.Elem())
	}
}

func csvMarshalCase(c *Cases, sl reflect.Value, cols []string) {
	t := sl.Type().Elem()
	c.add(D{"op": "marshal", "fields": csvFields(t), "cols": rowJ(cols), "recs": csvRecs(sl)}, func(d D) {
		d["mst"], d["text"] = "err", L{}
		s, err := csv.Marshal(cols, sl.Interface())
		if err == nil {
			d["mst"] = "ok"
			s = csv.ToCsv([][]string{cols}) + "\n" + s
			d["text"] = bytesJ(s)
		}
		csvRead(d, t, s, 0)
	})
}

func csvUnmarshalCase(c *Cases, t reflect.Type, s string, pre int) {
	c.add(D{"op": "unmarshal", "fields": csvFields(t), "src": bytesJ(s), "pre": pre}, func(d D) { csvRead(d, t, s, pre) })
}

// arguments that are no slices of structs: what they are, and calls with them
func csvUnfit() map[string]interface{} {
	n, text := 3, "a"
	var none *[]csvT1
	var any interface{} = []csvT1{{}}
	return map[string]interface{}{
		"nil": nil, "int": 1, "string": "a,b", "struct": csvT1{}, "pointer": &csvT1{}, "int pointer": &n, "string pointer": &text,
		"nil pointer": none, "ints": []int{1, 2}, "int slice pointer": &[]int{1}, "no ints": []int{}, "pointers": []*csvT1{{}},
		"pointer to pointers": &[]*csvT1{{}}, "tables": [][]csvT1{{{}}}, "pointer to tables": &[][]csvT1{{{}}}, "array": [2]csvT1{},
		"array pointer": &[2]csvT1{}, "map": map[string]csvT1{"a": {}}, "map pointer": &map[string]csvT1{"a": {}}, "interfaces": []interface{}{csvT1{}},
		"interface pointer": &any, "function": func() []csvT1 { return nil }, "channel": make(chan csvT1), "maps": []map[string]string{{"A": "b"}},
		"pointer to pointer": &none, "bool": true, "float": 1.5,
	}
}

func csvUnfitCases(c *Cases, r *rand.Rand) {
	all := csvUnfit()
	names := []string{}
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := all[n]
		cols := csvCols(r, csvTypes[0])
		c.add(D{"op": "unfit", "call": "marshal", "what": n}, func(d D) {
			_, err := csv.Marshal(cols, v)
			d["st"] = okErr(err)
		})
		s := csv.ToCsv([][]string{cols, make([]string, len(cols)), make([]string, len(cols))})
		c.add(D{"op": "unfit", "call": "unmarshal", "what": n}, func(d D) { d["st"] = okErr(csv.Unmarshal(v, s)) })
	}
	// a slice that is no pointer cannot be filled, a pointer to one is no table
	sl := csvRecords(r, csvTypes[0], 2)
	p := reflect.New(sl.Type())
	c.add(D{"op": "unfit", "call": "unmarshal", "what": "slice"}, func(d D) { d["st"] = okErr(csv.Unmarshal(sl.Interface(), "A\n1\n")) })
	c.add(D{"op": "unfit", "call": "marshal", "what": "slice pointer"}, func(d D) {
		_, err := csv.Marshal([]string{"A"}, p.Interface())
		d["st"] = okErr(err)
	})
}

func okErr(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

var csvAtoms = []string{"a", "b", " ", "  ", ",", "\"", "\"\"", "\n", "\r", "\r\n", "\t", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\u3000",
	"é", "漢", "😀", "\x00", "1", "'", ";", "\u200b", "\ufeff", "\ufffd"}

func csvCell(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return oneOf(r, "abc", "x y", "12", "é漢")
	}
	s := ""
	for n := 1 + r.Intn(5); n > 0; n-- {
		s += csvAtoms[r.Intn(len(csvAtoms))]
	}
	return s
}

func csvCols(r *rand.Rand, t reflect.Type) []string {
	cols := []string{}
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			cols = append(cols, s)
		}
	}
	for i := 0; i < t.NumField(); i++ {
		if r.Intn(4) > 0 {
			if tag := t.Field(i).Tag.Get("csv"); tag != "" && r.Intn(8) > 0 {
				add(tag)
			} else {
				add(t.Field(i).Name)
			}
		}
	}
	for r.Intn(3) == 0 {
		add(oneOf(r, "", "other", "foo", "Y", "Z", "W", "Big", "more,", " "))
	}
	r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	return cols
}

func csvRecords(r *rand.Rand, t reflect.Type, n int) reflect.Value {
	sl := reflect.MakeSlice(reflect.SliceOf(t), n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < t.NumField(); j++ {
			f := sl.Index(i).Field(j)
			switch csvKind(f.Kind()) {
			case "str":
				f.SetString(csvCell(r))
			case "8":
				f.SetInt([]int64{0, 1, -1, 127, -128, 42}[r.Intn(6)])
			case "16":
				f.SetInt([]int64{0, 1, -1, 32767, -32768, 300}[r.Intn(6)])
			case "32":
				f.SetInt([]int64{0, 1, -1, math.MaxInt32, math.MinInt32, 70000}[r.Intn(6)])
			case "u8":
				f.SetUint([]uint64{0, 1, 255, 128, 127}[r.Intn(5)])
			case "u32":
				f.SetUint([]uint64{0, 1, math.MaxUint32, 1 << 31, 65536}[r.Intn(5)])
			case "64":
				f.SetInt([]int64{0, -7, 9, math.MaxInt64, math.MinInt64, r.Int63() - r.Int63(), 1 << 31}[r.Intn(7)])
			case "u16":
				f.SetUint([]uint64{0, 1, 65535, 32768, uint64(r.Intn(65536))}[r.Intn(5)])
			case "u64":
				f.SetUint([]uint64{0, 1, math.MaxUint64, 1 << 63, r.Uint64()}[r.Intn(5)])
			default:
				v := []float64{0, 1, -1.5, 0.1, 1e21, 1e-7, math.MaxFloat32, math.SmallestNonzeroFloat32, r.NormFloat64(), math.Inf(1), 123456789}[r.Intn(11)]
				if f.Kind() == reflect.Float64 && r.Intn(4) == 0 {
					v = []float64{math.MaxFloat64, 5e-324, r.NormFloat64() * 1e300, 1.0 / 3}[r.Intn(4)]
				}
				f.SetFloat(v)
			}
		}
	}
	return sl
}

func csvLen(tier string) int {
	if tier == "thorough" {
		return 7
	}
	return 5
}

func init() {
	letters := []string{"a", " ", "\"", ",", "\n", "\r"}
	const chunk = 200
	fams["csvtexts"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		n := textsUpTo(len(letters), csvLen(tier))
		for i := id * chunk; i < (id+1)*chunk && i < n; i++ {
			csvParseCase(c, nthText(letters, i))
		}
		return c
	}
	famSize["csvtexts"] = func(seed int64, tier string) int {
		return (textsUpTo(len(letters), csvLen(tier)) + chunk - 1) / chunk
	}
	// characters in every place
	fams["csvchars"] = func(seed int64, tier string, id int) TCase {
		c := &Cases{}
		for i := id * 40; i < (id+1)*40 && i < len(placeChars); i++ {
			x := string(placeChars[i])
			for _, f := range []string{"X", "aXb", "Xa", "aX", "a,X", "X,a", " X ", "\"aXb\"", "\"X\"", "\"a\"X", "\"a\"Xb", "\"a\"X,b", "X\"a\"", "bX\"a\"", "a\nX", "a\n\nX", "X\na", "\"a\"\nX\"b\"", "\"a"} {
				csvParseCase(c, strings.ReplaceAll(f, "X", x))
			}
			csvWriteCase(c, [][]string{{x}, {"a" + x, x + "b"}, {"a" + x + "b", ""}})
			csvWriteCase(c, [][]string{{"a", x}, {x, "b"}})
		}
		return c
	}
	famSize["csvchars"] = func(int64, string) int { return (len(placeChars) + 39) / 40 }
	fams["csv"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "csv", id)
		c := &Cases{}
		for k := 0; k < 8; k++ {
			csvParseCase(c, atomText(r, csvAtoms, 16))
			// mostly well-formed
			s := ""
			for n := r.Intn(5); n >= 0; n-- {
				for m := r.Intn(4); m >= 0; m-- {
					switch r.Intn(4) {
					case 0:
						s += oneOf(r, "", " ") + "\"" + strings.ReplaceAll(csvCell(r), "\"", "\"\"") + "\"" + oneOf(r, "", " ", "\u00a0")
					case 1:
						s += csvCell(r)
					default:
						s += oneOf(r, "a", " b ", "", "x\"y", "\u3000c\u2028")
					}
					if m > 0 {
						s += ","
					}
				}
				if n > 0 {
					s += oneOf(r, "\n", "\r\n", "\n\n", "\r", "\u0085", "\v")
				}
			}
			csvParseCase(c, s)
			if len(s) > 0 && r.Intn(2) == 0 {
				i := r.Intn(len(s))
				for i > 0 && s[i]&0xc0 == 0x80 {
					i--
				}
				csvParseCase(c, s[:i])
			}
		}
		for k := 0; k < 12; k++ {
			rows := make([][]string, r.Intn(5))
			for i := range rows {
				rows[i] = make([]string, 1+r.Intn(4))
				for j := range rows[i] {
					rows[i][j] = csvCell(r)
				}
				if len(rows[i]) == 1 && rows[i][0] == "" && r.Intn(10) > 0 {
					rows[i] = []string{"", ""}
				}
			}
			csvWriteCase(c, rows)
		}
		return c
	}
	fams["csvrec"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "csvrec", id)
		c := &Cases{}
		for k := 0; k < 10; k++ {
			t := csvTypes[r.Intn(len(csvTypes))]
			csvMarshalCase(c, csvRecords(r, t, r.Intn(4)), csvCols(r, t))
			t = csvTypes[r.Intn(len(csvTypes))]
			cols := csvCols(r, t)
			rows := [][]string{cols}
			for n := r.Intn(4); n > 0; n-- {
				row := []string{}
				for j := range cols {
					cell := oneOf(r, "0", "1", "-1", "+7", "007", "127", "65535", "12", "32767", "255", "-32768", "2147483647", "4294967295")
					if r.Intn(8) == 0 {
						cell = oneOf(r, "", "x", "128", "-129", "65536", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615",
							"18446744073709551616", "1.5", " 1", "1_000", "0x10", "--1", "+", "٣")
					}
					_ = j
					row = append(row, cell)
				}
				if r.Intn(8) == 0 && len(row) > 0 {
					row = row[:r.Intn(len(row))]
				} else if r.Intn(8) == 0 {
					row = append(row, "extra")
				}
				rows = append(rows, row)
			}
			s := csv.ToCsv(rows)
			if r.Intn(10) == 0 {
				s += fmt.Sprint(oneOf(r, "\n", "\"", "\nx,\"", ",,"))
			}
			csvUnmarshalCase(c, t, s, []int{0, 0, 1, 5}[r.Intn(4)])
		}
		if id%10 == 0 {
			csvUnfitCases(c, r)
		}
		return c
	}
	// long texts and wide tables
	fams["csvbig"] = func(seed int64, tier string, id int) TCase {
		r := caseRand(seed, "csvbig", id)
		c := &Cases{}
		n := 40 + r.Intn(60)
		switch id % 20 { // beyond the widths of counters and buffers
		case 1:
			n = 1100
		case 2:
			n = 270
		case 3:
			n = 130
		}
		switch id % 4 {
		case 0:
			csvParseCase(c, strings.Repeat("\"\"", n)+oneOf(r, "", "\"", "x"))
			csvParseCase(c, "\""+strings.Repeat("\"\"", n)+"\"")
			csvParseCase(c, strings.Repeat("\n", n)+"a"+strings.Repeat("\r\n", n))
		case 1:
			rows := make([][]string, n/4)
			for i := range rows {
				rows[i] = []string{csvCell(r), csvCell(r) + csvCell(r), "x"}
			}
			csvWriteCase(c, rows)
		case 2:
			row := make([]string, n)
			for i := range row {
				row[i] = oneOf(r, "", "a", "\"", ",")
			}
			csvWriteCase(c, [][]string{row, {"z", ""}})
		case 3:
			csvWriteCase(c, [][]string{{strings.Repeat(oneOf(r, "\"", "\n", " ", "\"a", "é,"), n), "b"}})
			csvParseCase(c, strings.Repeat("a,", n)+"\""+strings.Repeat("b\n", n))
		}
		return c
	}
}
