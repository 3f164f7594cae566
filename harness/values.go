package main

// Projection of ASTs and values to the form the specification uses.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	. "github.com/shellyln/takenoco/base"
	bclsz "github.com/shellyln/takenoco/base/classes"
	eclsz "github.com/shellyln/takenoco/extra/classes"
	oclsz "github.com/shellyln/takenoco/object/classes"
	sclsz "github.com/shellyln/takenoco/string/classes"
)

type L = []interface{}
type D = map[string]interface{}

// AstV is an AST as a value of the specification:
// [class, type, value kind, value, children, position, length, opcode]
type AstV struct {
	Cn, Ty, Vt string
	Vb         []int
	Ch         []AstV
	P, Len, Op int
}

func (a AstV) J() L {
	return L{a.Cn, a.Ty, a.Vt, ints(a.Vb), astsJ(a.Ch), a.P, a.Len, a.Op}
}

func astsJ(as []AstV) L {
	r := make(L, len(as))
	for i := range as {
		r[i] = as[i].J()
	}
	return r
}

func ints(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}

func bytesJ(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func toStr(v []int) string {
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return string(b)
}

var classNames = map[string]string{
	bclsz.Group:   "Group",
	sclsz.Any:     "Any",
	sclsz.End:     "End",
	sclsz.Seq:     "Seq",
	sclsz.SeqI:    "SeqI",
	sclsz.Alpha:   "Alpha",
	sclsz.Number:  "Number",
	sclsz.Alnum:   "Alnum",
	oclsz.Any:     "OAny",
	oclsz.Seq:     "OSeq",
	oclsz.End:     "OEnd",
	eclsz.DateStr: "DateStr",
	eclsz.TimeStr: "TimeStr",
	eclsz.Date:    "Date",
	eclsz.Time:    "Time",

	sclsz.CharRange:             "CharRange",
	sclsz.CharRangeN:            "CharRangeN",
	sclsz.CharClass:             "CharClass",
	sclsz.CharClassN:            "CharClassN",
	sclsz.CharClassFn:           "CharClassFn",
	sclsz.Whitespace:            "Whitespace",
	sclsz.WhitespaceNoLineBreak: "WhitespaceNoLineBreak",
	sclsz.LineBreak:             "LineBreak",
	sclsz.BinNumber:             "BinNumber",
	sclsz.OctNumber:             "OctNumber",
	sclsz.HexNumber:             "HexNumber",
	oclsz.ObjClass:              "ObjClass",
	oclsz.ObjClassN:             "ObjClassN",
	oclsz.ObjClassFn:            "ObjClassFn",
	eclsz.BinaryNumberStr:       "BinaryNumberStr",
	eclsz.OctalNumberStr:        "OctalNumberStr",
	eclsz.HexNumberStr:          "HexNumberStr",
	eclsz.IntegerNumberStr:      "IntegerNumberStr",
	eclsz.FloatNumberStr:        "FloatNumberStr",
	eclsz.NumericStr:            "NumericStr",
	eclsz.IdentifierStr:         "IdentifierStr",
	eclsz.DateTimeStr:           "DateTimeStr",
	eclsz.DateTime:              "DateTime",
}

func clsName(s string) string {
	if w, ok := classNames[s]; ok {
		return w
	}
	return s
}

var typeNames = map[AstType]string{
	AstType_Nil: "Nil", AstType_Rune: "Rune", AstType_Int: "Int", AstType_Uint: "Uint",
	AstType_Float: "Float", AstType_Bool: "Bool", AstType_String: "String",
	AstType_AstCons: "AstCons", AstType_ListOfAst: "ListOfAst", AstType_ListOfAny: "ListOfAny",
	AstType_Function: "Function", AstType_Any: "Any",
}

var typeVals = func() map[string]AstType {
	m := map[string]AstType{}
	for k, v := range typeNames {
		m[v] = k
	}
	return m
}()

// IntSlice and AnySlice are the harness's own slice sources.
type IntSlice []int

func (s IntSlice) Len() int                         { return len(s) }
func (s IntSlice) Get(i int) interface{}            { return s[i] }
func (s IntSlice) Set(i int, v interface{})         { s[i] = v.(int) }
func (s IntSlice) Reslice(a, b int) SliceLike       { return s[a:b] }
func (s IntSlice) Copy(a, b int) SliceLike          { return append(make(IntSlice, 0, b-a), s[a:b]...) }
func (s IntSlice) Make(l, c int) SliceLike          { return make(IntSlice, l, c) }
func (s IntSlice) ItemEquals(a, b interface{}) bool { return a.(int) == b.(int) }

type AnySlice []interface{}

func (s AnySlice) Len() int                         { return len(s) }
func (s AnySlice) Get(i int) interface{}            { return s[i] }
func (s AnySlice) Set(i int, v interface{})         { s[i] = v }
func (s AnySlice) Reslice(a, b int) SliceLike       { return s[a:b] }
func (s AnySlice) Copy(a, b int) SliceLike          { return append(make(AnySlice, 0, b-a), s[a:b]...) }
func (s AnySlice) Make(l, c int) SliceLike          { return make(AnySlice, l, c) }
func (s AnySlice) ItemEquals(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// object element <-> integer
func objElem(kind string, v int) interface{} {
	switch kind {
	case "any":
		if v == -999 {
			return nil
		}
		if v%2 == 0 {
			return v
		}
		return "s" + strconv.Itoa(v)
	case "ast":
		return Ast{ClassName: "e", Type: AstType_Int, Value: int64(v), OpCode: AstOpCodeType(v % 3)}
	}
	return v
}

func elemInt(v interface{}) (int, bool) {
	switch w := v.(type) {
	case nil:
		return -999, true
	case int:
		return w, true
	case string:
		if strings.HasPrefix(w, "s") {
			n, err := strconv.Atoi(w[1:])
			return n, err == nil
		}
	case Ast:
		if n, ok := w.Value.(int64); ok {
			return int(n), true
		}
	}
	return -999, false
}

func objSource(kind string, vs []int) SliceLike {
	switch kind {
	case "any":
		r := make(AnySlice, len(vs))
		for i, v := range vs {
			r[i] = objElem(kind, v)
		}
		return r
	case "ast":
		r := make(AstSlice, len(vs))
		for i, v := range vs {
			r[i] = objElem(kind, v).(Ast)
		}
		return r
	}
	return append(IntSlice{}, vs...)
}

func sliceInts(v SliceLike) []int {
	r := make([]int, v.Len())
	for i := range r {
		r[i], _ = elemInt(v.Get(i))
	}
	return r
}

// Opcodes and addresses share a number: 100000 * (number of the address) + opcode; large opcodes are numbered from 90000.
var bigOps = []AstOpCodeType{1<<64 - 1, 1 << 63, 1 << 32, 1<<31 - 1, 1<<16 + 1<<20}
var addrVals [3]int
var addrs = []Box{ReflectionBox{Val: reflect.ValueOf(&addrVals[0]).Elem()}, ReflectionBox{Val: reflect.ValueOf(&addrVals[1]).Elem()},
	MapContainerReflectionBox{Key: reflect.ValueOf("k")}}

func opOf(a Ast) int {
	op, ad := 99999, 0
	if a.OpCode < 90000 {
		op = int(a.OpCode)
	}
	for i, b := range bigOps {
		if a.OpCode == b {
			op = 90000 + i
		}
	}
	if a.Address != nil {
		ad = 99
		for i, b := range addrs {
			if a.Address == b {
				ad = i + 1
			}
		}
	}
	return 100000*ad + op
}

func setOp(a *Ast, op int) {
	a.OpCode = opCode(op % 100000)
	if ad := op / 100000; ad > 0 {
		a.Address = addrs[ad-1]
	}
}

func opCode(op int) AstOpCodeType {
	if op >= 90000 {
		return bigOps[op-90000]
	}
	return AstOpCodeType(op)
}

func snap(a Ast) AstV {
	r := AstV{Cn: clsName(a.ClassName), Ty: typeNames[a.Type], P: a.Position, Len: a.Length, Op: opOf(a)}
	if r.Ty == "" {
		r.Ty = "type" + strconv.Itoa(int(a.Type))
	}
	r.Vt, r.Vb, r.Ch = snapVal(a.Type, a.Value)
	return r
}

func snapVal(ty AstType, v interface{}) (string, []int, []AstV) {
	switch w := v.(type) {
	case nil:
		if ty == AstType_Any { // an element
			return "obj", []int{-999}, nil
		}
		return "nil", nil, nil
	case string:
		if ty == AstType_Any {
			if n, ok := elemInt(w); ok {
				return "obj", []int{n}, nil
			}
		}
		return "str", bytesJ(w), nil
	case int64:
		return "int", bytesJ(strconv.FormatInt(w, 10)), nil
	case uint64:
		return "uint", bytesJ(strconv.FormatUint(w, 10)), nil
	case rune:
		return "rune", bytesJ(strconv.FormatInt(int64(w), 10)), nil
	case float64:
		return "float", bytesJ(strconv.FormatFloat(w, 'g', -1, 64)), nil
	case bool:
		if w {
			return "bool", []int{1}, nil
		}
		return "bool", []int{0}, nil
	case int:
		return "obj", []int{w}, nil
	case Ast:
		if w.ClassName != "e" { // not an element of an object source
			return "ast", nil, snaps([]Ast{w})
		}
		n, _ := elemInt(w)
		return "obj", []int{n}, nil
	case AstSlice:
		if ty == AstType_ListOfAst {
			return "list", nil, snaps(w)
		}
		return "slice", sliceInts(w), nil
	case AstCons:
		return "cons", nil, []AstV{snap(w.Car), snap(w.Cdr)}
	case SliceLike:
		return "slice", sliceInts(w), nil
	case reent:
		return w.k, w.p, w.a
	}
	return "other", bytesJ(fmt.Sprintf("%T", v)), nil
}

// outcome of a re-entrant parse
type reent struct {
	k string
	p []int
	a []AstV
}

func snaps(as []Ast) []AstV {
	r := make([]AstV, len(as))
	for i := range as {
		r[i] = snap(as[i])
	}
	return r
}

// mk builds the real AST of a value of the specification.
func mk(a AstV) Ast {
	r := Ast{ClassName: a.Cn, Type: typeVals[a.Ty]}
	setOp(&r, a.Op)
	if a.Cn == "Group" {
		r.ClassName = bclsz.Group
	}
	r.Position, r.Length = a.P, a.Len
	r.Value = mkVal(a)
	return r
}

func mkVal(a AstV) interface{} {
	switch a.Vt {
	case "nil":
		return nil
	case "str":
		return toStr(a.Vb)
	case "int":
		n, _ := strconv.ParseInt(toStr(a.Vb), 10, 64)
		return n
	case "uint":
		n, _ := strconv.ParseUint(toStr(a.Vb), 10, 64)
		return n
	case "rune":
		n, _ := strconv.ParseInt(toStr(a.Vb), 10, 64)
		return rune(n)
	case "float":
		n, _ := strconv.ParseFloat(toStr(a.Vb), 64)
		return n
	case "bool":
		return a.Vb[0] == 1
	case "obj":
		if a.Vb[0] == -999 {
			return nil
		}
		return a.Vb[0]
	case "list":
		return mks(a.Ch)
	case "cons":
		return AstCons{Car: mk(a.Ch[0]), Cdr: mk(a.Ch[1])}
	case "slice":
		return append(IntSlice{}, a.Vb...)
	}
	panic("mkVal " + a.Vt)
}

func mks(as []AstV) AstSlice {
	r := make(AstSlice, len(as))
	for i := range as {
		r[i] = mk(as[i])
	}
	return r
}

func strAst(cn, s string, p, l int) AstV {
	return AstV{Cn: cn, Ty: "String", Vt: "str", Vb: bytesJ(s), P: p, Len: l}
}
func intAst(cn string, n int) AstV {
	return AstV{Cn: cn, Ty: "Int", Vt: "int", Vb: bytesJ(strconv.Itoa(n))}
}
