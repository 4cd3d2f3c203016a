package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/leftmike/maho/types"
)

// Val is a value as the specification (spec/Values.tla) writes it.
type Val []int

func numVal(tag int, neg bool, exp int, m uint64) Val {
	c := 1
	s := 1
	if neg {
		c = -1
		s = -1
	}
	return Val{tag, c, s * exp, s * int(m>>48), s * int(m>>32&0xFFFF), s * int(m>>16&0xFFFF),
		s * int(m&0xFFFF)}
}

func intVal(i int64) Val {
	if i == 0 {
		return Val{2, 0, 0, 0, 0, 0, 0}
	}
	u := uint64(i)
	if i < 0 {
		u = -u
	}
	z := bits.LeadingZeros64(u)
	return numVal(2, i < 0, 63-z, u<<z)
}

func floatVal(f float64) Val {
	switch {
	case math.IsNaN(f):
		return Val{3, -3, 0, 0, 0, 0, 0}
	case math.IsInf(f, -1):
		return Val{3, -2, 0, 0, 0, 0, 0}
	case math.IsInf(f, 1):
		return Val{3, 2, 0, 0, 0, 0, 0}
	case f == 0:
		return Val{3, 0, 0, 0, 0, 0, 0}
	}
	fr, exp := math.Frexp(math.Abs(f)) // 0.5 <= fr < 1
	m := uint64(math.Ldexp(fr, 53)) << 11
	return numVal(3, f < 0, exp-1, m)
}

func bytesInts(tag int, b []byte) Val {
	v := make(Val, 0, len(b)+1)
	v = append(v, tag)
	for _, x := range b {
		v = append(v, int(x))
	}
	return v
}

func toVal(v types.Value) Val {
	switch v := v.(type) {
	case nil:
		return Val{0}
	case types.BoolValue:
		if v {
			return Val{1, 1}
		}
		return Val{1, 0}
	case types.Int64Value:
		return intVal(int64(v))
	case types.Float64Value:
		return floatVal(float64(v))
	case types.StringValue:
		return bytesInts(4, []byte(v))
	case types.BytesValue:
		return bytesInts(5, []byte(v))
	}
	panic(fmt.Sprintf("harness: value %#v", v))
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (v Val) mant() uint64 { // c, e, m1..m4 follow the tag
	return uint64(abs(v[3]))<<48 | uint64(abs(v[4]))<<32 | uint64(abs(v[5]))<<16 |
		uint64(abs(v[6]))
}

func (v Val) bytes() []byte {
	b := make([]byte, 0, len(v)-1)
	for _, x := range v[1:] {
		b = append(b, byte(x))
	}
	return b
}

func fromVal(v Val) types.Value {
	switch v[0] {
	case 0:
		return nil
	case 1:
		return types.BoolValue(v[1] == 1)
	case 2:
		if v[1] == 0 {
			return types.Int64Value(0)
		}
		u := (Val{0, 0, 0, v[3], v[4], v[5], v[6]}).mant() >> (63 - abs(v[2]))
		if v[1] < 0 {
			u = -u
		}
		return types.Int64Value(u)
	case 3:
		switch v[1] {
		case -3:
			return types.Float64Value(math.NaN())
		case -2:
			return types.Float64Value(math.Inf(-1))
		case 2:
			return types.Float64Value(math.Inf(1))
		case 0:
			return types.Float64Value(0)
		}
		e := v[2]
		if v[1] < 0 {
			e = -e
		}
		m := (Val{0, 0, 0, v[3], v[4], v[5], v[6]}).mant()
		f := math.Ldexp(float64(m>>11), e-52)
		if v[1] < 0 {
			f = -f
		}
		return types.Float64Value(f)
	case 4:
		return types.StringValue(v.bytes())
	case 5:
		return types.BytesValue(v.bytes())
	}
	panic(fmt.Sprintf("harness: value %v", v))
}
