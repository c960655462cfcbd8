// Package val has the values of plans, and an independent model of what maho
// does with values: conversion, comparison, and formatting.
package val

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/leftmike/maho/types"
	"verifsim/sim"
)

// V is a value in a plan: n, b0, b1, i123, f1.5, s"quoted", x"quoted".
type V string

func (v V) Value() types.Value {
	if v == "" || v == "n" {
		return nil
	}
	s := string(v[1:])
	switch v[0] {
	case 'b':
		return types.BoolValue(s == "1")
	case 'i':
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		return types.Int64Value(n)
	case 'f':
		n, err := strconv.ParseFloat(s, 64)
		must(err)
		return types.Float64Value(n)
	case 's':
		u, err := strconv.Unquote(s)
		must(err)
		return types.StringValue(u)
	case 'x':
		u, err := strconv.Unquote(s)
		must(err)
		return types.BytesValue(u)
	}
	panic("bad plan value: " + string(v))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func Int(i int64) V     { return V("i" + strconv.FormatInt(i, 10)) }
func Float(f float64) V { return V("f" + strconv.FormatFloat(f, 'g', -1, 64)) }
func Str(s string) V    { return V("s" + strconv.QuoteToASCII(s)) }
func Bytes(s string) V  { return V("x" + strconv.QuoteToASCII(s)) }
func Bool(b bool) V {
	if b {
		return "b1"
	}
	return "b0"
}

// Format distinguishes values which differ in any way.
func Format(v types.Value) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case types.BoolValue:
		return fmt.Sprintf("%v", bool(v))
	case types.Int64Value:
		return strconv.FormatInt(int64(v), 10)
	case types.Float64Value:
		return "f" + strconv.FormatFloat(float64(v), 'g', -1, 64)
	case types.StringValue:
		return strconv.QuoteToASCII(string(v))
	case types.BytesValue:
		if v == nil {
			return `x""`
		}
		return "x" + strconv.QuoteToASCII(string(v))
	}
	return fmt.Sprintf("?%T:%v", v, v)
}

func FormatRow(row []types.Value) string {
	var sb strings.Builder
	sb.WriteByte('(')
	for i, v := range row {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(Format(v))
	}
	sb.WriteByte(')')
	return sb.String()
}

// Convert a value to the type of a column; the model of a stored value.
func Convert(ct types.ColumnType, v types.Value) (types.Value, bool) {
	if v == nil {
		return nil, !ct.NotNull
	}
	switch ct.Type {
	case types.BoolType:
		switch v := v.(type) {
		case types.BoolValue:
			return v, true
		case types.StringValue:
			switch strings.Trim(string(v), " \t\n") {
			case "t", "true", "y", "yes", "on", "1":
				return types.BoolValue(true), true
			case "f", "false", "n", "no", "off", "0":
				return types.BoolValue(false), true
			}
		}
	case types.StringType:
		var s string
		switch v := v.(type) {
		case types.StringValue:
			s = string(v)
		case types.BytesValue:
			if !utf8.Valid(v) {
				return nil, false
			}
			s = string(v)
		case types.Int64Value:
			s = strconv.FormatInt(int64(v), 10)
		case types.Float64Value:
			s = strconv.FormatFloat(float64(v), 'g', -1, 64)
		default:
			return nil, false
		}
		return types.StringValue(s), len(s) <= int(ct.Size)
	case types.BytesType:
		var s string
		switch v := v.(type) {
		case types.StringValue:
			s = string(v)
		case types.BytesValue:
			s = string(v)
		default:
			return nil, false
		}
		return types.BytesValue(s), len(s) <= int(ct.Size)
	case types.Float64Type:
		switch v := v.(type) {
		case types.Float64Value:
			return v, true
		case types.Int64Value:
			return types.Float64Value(v), true
		case types.StringValue:
			f, err := strconv.ParseFloat(strings.Trim(string(v), " \t\n"), 64)
			return types.Float64Value(f), err == nil
		}
	case types.Int64Type:
		var n int64
		switch v := v.(type) {
		case types.Int64Value:
			n = int64(v)
		case types.Float64Value:
			if f := float64(v); !(f >= -(1<<63) && f < 1<<63) {
				return nil, false
			}
			n = int64(v)
		case types.StringValue:
			var err error
			n, err = strconv.ParseInt(strings.Trim(string(v), " \t\n"), 10, 64)
			if err != nil {
				return nil, false
			}
		default:
			return nil, false
		}
		switch ct.Size {
		case 2:
			return types.Int64Value(n), n == int64(int16(n))
		case 4:
			return types.Int64Value(n), n == int64(int32(n))
		}
		return types.Int64Value(n), true
	}
	return nil, false
}

// Valid says whether a value may be stored in a column.
func Valid(ct types.ColumnType, v types.Value) bool {
	if v == nil {
		return !ct.NotNull
	}
	c, ok := Convert(ct, v)
	return ok && Format(c) == Format(v)
}

// CompareKey of one column of a key: NULL is first, then values; reverse
// inverts the order of the values.
func CompareKey(a, b types.Value, reverse bool) int {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return 0
		} else if a == nil {
			return -1
		}
		return 1
	}
	c := compare(a, b)
	if reverse {
		return -c
	}
	return c
}

func compare(a, b types.Value) int {
	switch a := a.(type) {
	case types.BoolValue:
		b := b.(types.BoolValue)
		if a == b {
			return 0
		} else if a {
			return 1
		}
		return -1
	case types.Int64Value:
		b := b.(types.Int64Value)
		if a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	case types.Float64Value:
		x, y := float64(a), float64(b.(types.Float64Value))
		if math.IsNaN(x) || math.IsNaN(y) {
			if math.IsNaN(x) && math.IsNaN(y) {
				return 0
			} else if math.IsNaN(x) {
				return -1
			}
			return 1
		}
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case types.StringValue:
		return strings.Compare(string(a), string(b.(types.StringValue)))
	case types.BytesValue:
		return strings.Compare(string(a), string(b.(types.BytesValue)))
	}
	panic(fmt.Sprintf("val: unexpected value: %T", a))
}

var (
	strs = []string{"", "a", "b", "ab", "a\x00", "a\x00b", "\x00", "\x01", "\x00\x01", "a\x01", "\x7f", "abc", "B", "é"}
	ints = []int64{0, 1, 2, 3, 4, -1, 5, 100, -2}
	flts = []float64{0, 1, -1, 1.5, 2, 1e300, -1e-300, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1)}
)

// GenPool makes the size of a pool of values, perhaps with the length of what
// the strings in it start with.
func GenPool(r *sim.Rand) int {
	n := r.Range(2, 14)
	if r.Chance(1, 6) {
		n += sim.Pick(r, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 200, 254, 255, 256, 299, 511, 1022) << 8
	}
	return n
}

// Wide makes a pool of many values (n): most of them do not collide.
func Wide(pool, n int) int { return pool&0xfffff | n<<20 }

// Gen a value of the type; small pools, so that values collide. n limits the
// pool.
func Gen(r *sim.Rand, ct types.ColumnType, n int) V {
	long := n >> 8 & 0xfff
	wide := n >> 20
	n &= 0xff
	if !ct.NotNull && r.Chance(1, 8) {
		return "n"
	}
	switch ct.Type {
	case types.BoolType:
		return Bool(r.Chance(1, 2))
	case types.Int64Type:
		if r.Chance(1, 24) {
			switch ct.Size {
			case 2:
				return Int(int64(sim.Pick(r, math.MaxInt16, math.MinInt16)))
			case 4:
				return Int(int64(sim.Pick(r, math.MaxInt32, math.MinInt32, 256, 65536)))
			}
			return Int(sim.Pick(r, int64(math.MaxInt64), math.MinInt64, 255, 256, 1<<32))
		}
		if wide > 0 && r.Chance(9, 10) {
			return Int(int64(r.Intn(wide) - wide/2))
		}
		return Int(ints[r.Intn(min(n, len(ints)))])
	case types.Float64Type:
		if wide > 0 && r.Chance(9, 10) {
			return Float(float64(r.Intn(wide)-wide/2) / 4)
		}
		return Float(flts[r.Intn(min(n, len(flts)))])
	case types.StringType, types.BytesType:
		for {
			s := strs[r.Intn(min(n, len(strs)))]
			if wide > 0 && r.Chance(9, 10) {
				s = fmt.Sprint(r.Intn(wide))
			}
			if r.Chance(1, 30) && ct.Size < 100 {
				s = strings.Repeat("z", int(ct.Size))
			}
			if len(s)+long <= int(ct.Size) {
				s = strings.Repeat("p", long) + s
			}
			if len(s) <= int(ct.Size) {
				if ct.Type == types.BytesType {
					return Bytes(s)
				}
				return Str(s)
			}
		}
	}
	panic("val: unexpected column type")
}

// GenBad makes a value which may not be stored in the column, or only after a
// conversion.
func GenBad(r *sim.Rand, ct types.ColumnType) V {
	if ct.NotNull && r.Chance(1, 3) {
		return "n"
	}
	switch ct.Type {
	case types.BoolType:
		if r.Chance(1, 4) {
			return sim.Pick(r, Str("true"), Str("f"), Str("no"), Str("off\t"), Str("on"), Str("0"), Str("1"), Str("2"), Str("T"), Str(""), Str("y "), Float(1), Bool(true))
		}
		return sim.Pick(r, Str("yes"), Str("maybe"), Int(1), Str(" t\n"), Bytes("t"))
	case types.Int64Type:
		if r.Chance(1, 4) {
			return sim.Pick(r, Float(1e300), Float(-1e300), Float(math.NaN()), Float(math.Inf(1)), Float(1<<63), Float(-1<<63), Float(1<<62),
				Float(-2.75), Float(32767.5), Float(-32769), Float(1<<31), Float(-1<<31),
				Str("9223372036854775807"), Str("9223372036854775808"), Str("-9223372036854775808"), Str("+5"), Str("0x10"), Str("1_0"), Str("1.0"), Str(""))
		}
		return sim.Pick(r, Str("12"), Str("x"), Float(2.75), Int(1<<40), Int(32768), Int(-1<<31-1), Bool(true), Str(" 7 "), Str("1 2"), Bytes("1"))
	case types.Float64Type:
		if r.Chance(1, 4) {
			return sim.Pick(r, Str("1e400"), Str("-inf"), Str("NaN"), Str("1e-400"), Str(" 5e-1\n"), Str(""), Int(math.MaxInt64), Int(math.MinInt64), Int(1<<53+1))
		}
		return sim.Pick(r, Str("1.25"), Str("e"), Int(3), Bool(false), Bytes("1"))
	case types.StringType:
		if r.Chance(1, 4) {
			return sim.Pick(r, Float(math.Inf(1)), Float(1e21), Float(-0.1), Int(math.MinInt64), Bytes("\x00é"), Bytes("\xed\xa0\x80"), Str("\xff"), Str(""), Bytes(""))
		}
		return sim.Pick(r, Int(42), Float(0.5), Float(0.1), Float(1.0/3), Float(math.Nextafter(0.3, 1)), Float(1<<53+2), Float(5e-324), Bool(true), Bytes("ok"), Bytes("\xff\xfe"), Str(strings.Repeat("y", min(int(ct.Size)+1, 300))), Str(strings.Repeat("é", min(int(ct.Size)/2+1, 300))))
	case types.BytesType:
		return sim.Pick(r, Str("ok"), Int(1), Bytes(strings.Repeat("y", min(int(ct.Size)+1, 300))), Str(strings.Repeat("y", min(int(ct.Size)+1, 300))))
	}
	panic("val: unexpected column type")
}
