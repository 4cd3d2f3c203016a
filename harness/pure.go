package main

import (
	"bytes"
	"math"
	"math/rand"
	"slices"
	"sort"
	"strings"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/types"
)

type M = map[string]any

func ints(b []byte) []int {
	r := make([]int, 0, len(b))
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

// limbs are the four 16 bit limbs of an integer.
func limbs(u uint64) []int {
	return []int{int(u >> 48), int(u >> 32 & 0xFFFF), int(u >> 16 & 0xFFFF), int(u & 0xFFFF)}
}

// pure records calls of functions without state.
type pure struct {
	tw *traceWriter
	r  *rand.Rand
	ck *clock
}

func (p *pure) call(f func() (Res, error)) Res {
	return p.ck.guard(f)
}

// -- keys

func colKeys(key [][2]int) []types.ColumnKey {
	var cks []types.ColumnKey
	for _, k := range key {
		cks = append(cks, types.MakeColumnKey(types.ColumnNum(k[0]), k[1] == 1))
	}
	return cks
}

// keys records rows in the order of their encoded keys.
func (p *pure) keys(key [][2]int, rows []types.Row) {
	type kr struct {
		k []byte
		r types.Row
	}
	cks := colKeys(key)
	krs := make([]kr, len(rows))
	res := p.call(func() (Res, error) {
		for i, r := range rows {
			krs[i] = kr{encode.MakeKey(cks, r), r}
		}
		return resOK, nil
	})
	sort.SliceStable(krs, func(i, j int) bool { return bytes.Compare(krs[i].k, krs[j].k) < 0 })
	rs := make([][]Val, 0, len(rows))
	ks := make([][]int, 0, len(rows))
	for _, x := range krs {
		row := make([]Val, 0, len(x.r))
		for _, v := range x.r {
			row = append(row, toVal(v))
		}
		rs = append(rs, row)
		ks = append(ks, ints(x.k))
	}
	p.tw.line(M{"op": "keys", "key": key, "rows": rs, "keys": ks, "res": res})
}

func single(vals []types.Value) []types.Row {
	var rows []types.Row
	for _, v := range vals {
		rows = append(rows, types.Row{v})
	}
	return rows
}

func (p *pure) allKeys() {
	var is, fs, ss, bs, all []types.Value
	for _, i := range bIntsPool {
		is = append(is, types.Int64Value(i))
	}
	for i := -300; i <= 300; i++ {
		is = append(is, types.Int64Value(i))
	}
	for _, f := range bFloatsPool {
		fs = append(fs, types.Float64Value(f))
	}
	for _, s := range smallStrings([]byte{0, 1, 2, 127, 128, 254, 255}, 3) {
		ss = append(ss, types.StringValue(s))
		bs = append(bs, types.BytesValue(s))
	}
	nulls := []types.Value{nil, types.BoolValue(false), types.BoolValue(true)}
	all = append(append(append(append(append(all, nulls...), is...), fs...), ss...), bs...)
	p.keys([][2]int{{0, 0}}, single(all))
	for d := 0; d < 2; d++ {
		for _, vs := range [][]types.Value{is, fs, ss, bs, nulls[1:]} {
			p.keys([][2]int{{0, d}}, single(append([]types.Value{nil}, vs...)))
		}
	}
	// Long ones.
	var ls, lb []types.Value
	for _, n := range longLengths {
		for _, c := range []byte{0, 1, 'a', 255} {
			b := bytes.Repeat([]byte{c}, n)
			ls = append(ls, types.StringValue(b))
			lb = append(lb, types.BytesValue(b))
		}
	}
	for d := 0; d < 2; d++ {
		p.keys([][2]int{{0, d}}, single(ls))
		p.keys([][2]int{{0, d}}, single(lb))
	}
	// Two columns, one of which is a prefix of another.
	var rows []types.Row
	for _, s1 := range smallStrings([]byte{0, 1, 2, 255}, 2) {
		for _, s2 := range smallStrings([]byte{0, 1, 255}, 2) {
			rows = append(rows, types.Row{types.StringValue(s1), types.BytesValue(s2)})
		}
		rows = append(rows, types.Row{types.StringValue(s1), nil}, types.Row{nil, types.BytesValue(s1)})
	}
	for d := 0; d < 4; d++ {
		p.keys([][2]int{{0, d & 1}, {1, d >> 1}}, rows)
		p.keys([][2]int{{1, d & 1}, {0, d >> 1}}, rows)
	}
}

func (p *pure) randKeys() {
	ncols := 1 + p.r.Intn(4)
	ts := make([]int, ncols)
	mixed := make([]bool, ncols)
	var key [][2]int
	for i := range ts {
		ts[i] = 1 + p.r.Intn(5)
		mixed[i] = p.r.Intn(6) == 0
	}
	for _, c := range p.r.Perm(ncols)[:1+p.r.Intn(ncols)] {
		d := p.r.Intn(2)
		if mixed[c] {
			d = 0 // the order of values of different types when descending is not defined
		}
		key = append(key, [2]int{c, d})
	}
	var rows []types.Row
	for i := 0; i < 30; i++ {
		row := make(types.Row, ncols)
		for c := range row {
			switch {
			case len(rows) > 0 && p.r.Intn(3) == 0:
				row[c] = pick(p.r, rows)[c]
			case p.r.Intn(12) == 0:
			case mixed[c]:
				row[c] = randValue(p.r, p.r.Intn(6))
			default:
				row[c] = randValue(p.r, ts[c])
			}
		}
		if p.r.Intn(12) == 0 {
			// Long ones.
			for c := range row {
				s := longBytes(p.r)
				if len(rows) > 0 {
					switch v := pick(p.r, rows)[c].(type) {
					case types.StringValue:
						s = longNear(p.r, []byte(v))
					case types.BytesValue:
						s = longNear(p.r, v)
					}
				}
				switch row[c].(type) {
				case types.StringValue:
					row[c] = types.StringValue(s)
				case types.BytesValue:
					row[c] = types.BytesValue(s)
				}
			}
		}
		// Near to an existing one.
		if s, ok := row[0].(types.StringValue); ok && p.r.Intn(2) == 0 {
			row[0] = s + types.StringValue(pick(p.r, []string{"\x00", "\x01", "\xff", "a"}))
		}
		rows = append(rows, row)
	}
	p.keys(key, rows)
}

// -- variable length integers

func (p *pure) varint(u uint64, rest []byte) {
	var enc []byte
	dec := p.call(func() (Res, error) {
		pre := []byte{7, 200}
		b := encode.EncodeVarint(slices.Clone(pre), u)
		if !bytes.HasPrefix(b, pre) {
			return resRej, nil
		}
		enc = b[len(pre):]
		left, n, ok := encode.DecodeVarint(append(slices.Clone(enc), rest...))
		if !ok {
			return resRej, nil
		}
		return Res{"ok", limbs(n), ints(left)}, nil
	})
	// Every shorter input must be refused.
	short := 0
	for i := range enc {
		if _, _, ok := encode.DecodeVarint(slices.Clone(enc[:i])); ok {
			short++
		}
	}
	p.tw.line(M{"op": "varint", "n": limbs(u), "rest": ints(rest), "enc": ints(enc), "res": dec,
		"short": short})
}

func (p *pure) zigzag(i int64, rest []byte) {
	var enc []byte
	dec := p.call(func() (Res, error) {
		pre := []byte{200}
		b := encode.EncodeZigzag64(slices.Clone(pre), i)
		if !bytes.HasPrefix(b, pre) {
			return resRej, nil
		}
		enc = b[len(pre):]
		left, n, ok := encode.DecodeZigzag64(append(slices.Clone(enc), rest...))
		if !ok {
			return resRej, nil
		}
		return Res{"ok", intVal(n), ints(left)}, nil
	})
	short := 0
	for i := range enc {
		if _, _, ok := encode.DecodeZigzag64(slices.Clone(enc[:i])); ok {
			short++
		}
	}
	p.tw.line(M{"op": "zigzag", "n": intVal(i), "rest": ints(rest), "enc": ints(enc), "res": dec,
		"short": short})
}

func (p *pure) decode(b []byte) {
	if len(b) >= 10 && b[9] > 1 && b[9] < 128 {
		cont := true
		for _, x := range b[:9] {
			cont = cont && x >= 128
		}
		if cont {
			b[9] = 1 // more than 64 bits: see DESIGN.md
		}
	}
	res := p.call(func() (Res, error) {
		left, n, ok := encode.DecodeVarint(slices.Clone(b))
		if !ok {
			return resRej, nil
		}
		return Res{"ok", limbs(n), ints(left)}, nil
	})
	zres := p.call(func() (Res, error) {
		left, n, ok := encode.DecodeZigzag64(slices.Clone(b))
		if !ok {
			return resRej, nil
		}
		return Res{"ok", intVal(n), ints(left)}, nil
	})
	p.tw.line(M{"op": "decode", "buf": ints(b), "res": res, "zres": zres})
}

func (p *pure) fixed(u uint64) {
	res := p.call(func() (Res, error) {
		return Res{"ok", ints(encode.EncodeUint64([]byte{9}, u)), ints(encode.EncodeUint32([]byte{9}, uint32(u)))}, nil
	})
	p.tw.line(M{"op": "fixed", "n": limbs(u), "res": res})
}

func (p *pure) allVarints() {
	for _, i := range bIntsPool {
		p.varint(uint64(i), nil)
		p.varint(uint64(i), []byte{0x80, 1})
		p.zigzag(i, nil)
		p.zigzag(i, []byte{255})
		p.fixed(uint64(i))
	}
	for k := 7; k < 64; k += 7 {
		for d := -1; d <= 1; d++ {
			p.varint(uint64(1)<<k+uint64(d), nil)
			p.zigzag(int64(uint64(1)<<(k-1)+uint64(d)), nil)
			p.zigzag(-int64(uint64(1)<<(k-1)+uint64(d)), nil)
		}
	}
	for i := 0; i < 400; i++ {
		p.varint(uint64(i), []byte{byte(i)})
		p.zigzag(int64(i-200), []byte{byte(i)})
	}
	bs := []byte{0, 1, 0x7f, 0x80, 0x81, 0xff}
	for _, s := range smallStrings(bs, 3) {
		p.decode([]byte(s))
	}
	for n := 1; n <= 12; n++ {
		for _, c := range []byte{0x80, 0xff, 0x81} {
			b := bytes.Repeat([]byte{c}, n)
			p.decode(slices.Clone(b))
			p.decode(append(slices.Clone(b), 0))
			p.decode(append(slices.Clone(b), 1))
			p.decode(append(slices.Clone(b), 1, 2, 3))
		}
	}
}

func (p *pure) randVarint() {
	switch p.r.Intn(4) {
	case 0:
		p.varint(p.r.Uint64()>>p.r.Intn(64), randBytes(p.r, 4))
	case 1:
		p.zigzag(randInt(p.r), randBytes(p.r, 4))
	case 2:
		b := make([]byte, p.r.Intn(13))
		for i := range b {
			b[i] = byte(p.r.Intn(256))
			if p.r.Intn(5) != 0 {
				b[i] |= 0x80
			}
		}
		p.decode(b)
	case 3:
		p.fixed(p.r.Uint64() >> p.r.Intn(64))
	}
}

// -- values

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func (p *pure) cmp(a, b types.Value) {
	res := p.call(func() (Res, error) {
		return Res{"ok", sign(types.Compare(a, b))}, nil
	})
	key := p.call(func() (Res, error) {
		ck := []types.ColumnKey{types.MakeColumnKey(0, false)}
		return Res{"ok", bytes.Compare(encode.MakeKey(ck, types.Row{a}), encode.MakeKey(ck, types.Row{b}))}, nil
	})
	p.tw.line(M{"op": "cmp", "a": toVal(a), "b": toVal(b), "res": res, "key": key})
}

// sorted records values as sorted by the real comparison.
func (p *pure) sorted(vals []types.Value) {
	vals = slices.Clone(vals)
	p.r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	res := p.call(func() (Res, error) {
		sort.SliceStable(vals, func(i, j int) bool { return types.Compare(vals[i], vals[j]) < 0 })
		return resOK, nil
	})
	vs := make([]Val, 0, len(vals))
	for _, v := range vals {
		vs = append(vs, toVal(v))
	}
	p.tw.line(M{"op": "sorted", "vals": vs, "res": res})
}

func valuePool() []types.Value {
	vs := []types.Value{nil, types.BoolValue(false), types.BoolValue(true)}
	for _, i := range bIntsPool {
		vs = append(vs, types.Int64Value(i))
	}
	for _, f := range bFloatsPool {
		vs = append(vs, types.Float64Value(f))
	}
	for _, s := range smallStrings([]byte{0, 'a', 255}, 2) {
		vs = append(vs, types.StringValue(s), types.BytesValue(s))
	}
	return vs
}

func corePool() []types.Value {
	vs := []types.Value{nil, types.BoolValue(false), types.BoolValue(true)}
	for _, i := range []int64{0, 1, -1, 2, 10, -10, 1<<53 - 1, 1 << 53, 1<<53 + 1, -1<<53 - 1, math.MaxInt64,
		math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1 << 62, 1<<62 + 1} {
		vs = append(vs, types.Int64Value(i))
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 0.5, -0.5, 1, -1, 1.5, 2, 10, -10, 1 << 53, -1 << 53, 1<<53 + 2, 1 << 62, 1 << 63, -1 << 63, 1 << 64,
		math.Nextafter(1<<63, 0), math.Nextafter(-1<<63, math.Inf(-1)), math.Nextafter(1, 2), math.Nextafter(1, 0),
		math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64} {
		vs = append(vs, types.Float64Value(f))
	}
	for _, s := range []string{"", "\x00", "a", "A", "b", "ab", "\xff", "é", "1"} {
		vs = append(vs, types.StringValue(s), types.BytesValue(s))
	}
	return vs
}

func (p *pure) allCmp() {
	p.sorted(valuePool())
	vs := corePool()
	for _, a := range vs {
		for _, b := range vs {
			p.cmp(a, b)
		}
	}
	for _, n := range longLengths {
		for _, m := range append([]int{0, 1, n - 1, n - 128, n - 256}, n) {
			if m < 0 {
				continue
			}
			a, b := strings.Repeat("a", n), strings.Repeat("a", m)
			p.cmp(types.StringValue(a), types.StringValue(b))
			p.cmp(types.StringValue(b), types.StringValue(a))
			p.cmp(types.BytesValue(a), types.BytesValue(b))
			p.cmp(types.BytesValue(b), types.BytesValue(a))
		}
	}
}

func (p *pure) randCmp() {
	if p.r.Intn(10) == 0 {
		var vs []types.Value
		for i := 0; i < 30; i++ {
			vs = append(vs, randValue(p.r, p.r.Intn(6)))
		}
		p.sorted(vs)
		return
	}
	if p.r.Intn(12) == 0 {
		a := longBytes(p.r)
		b := longNear(p.r, a)
		if p.r.Intn(2) == 0 {
			a, b = b, a
		}
		switch p.r.Intn(3) {
		case 0:
			p.cmp(types.StringValue(a), types.StringValue(b))
		case 1:
			p.cmp(types.BytesValue(a), types.BytesValue(b))
		case 2:
			p.cmp(types.StringValue(a), types.BytesValue(b))
		}
		return
	}
	t := p.r.Intn(6)
	a := randValue(p.r, t)
	b := randValue(p.r, pick(p.r, []int{t, t, p.r.Intn(6)}))
	// Close to each other.
	switch p.r.Intn(4) {
	case 0:
		if i, ok := a.(types.Int64Value); ok {
			f := float64(i)
			switch p.r.Intn(3) {
			case 0:
				f = math.Nextafter(f, math.Inf(1))
			case 1:
				f = math.Nextafter(f, math.Inf(-1))
			}
			b = types.Float64Value(f)
		} else if f, ok := a.(types.Float64Value); ok && math.Abs(float64(f)) < 1<<62 {
			b = types.Int64Value(int64(f) + int64(p.r.Intn(3)-1))
		} else if s, ok := a.(types.StringValue); ok {
			b = s + types.StringValue(randBytes(p.r, 1))
		} else if s, ok := a.(types.BytesValue); ok {
			b = append(slices.Clone(s), randBytes(p.r, 1)...)
		}
	}
	if p.r.Intn(2) == 0 {
		a, b = b, a
	}
	p.cmp(a, b)
}

// plus makes zero positive: the text of negative zero is not specified.
func plus(v types.Value) types.Value {
	if f, ok := v.(types.Float64Value); ok && f == 0 {
		return types.Float64Value(0)
	}
	return v
}

func (p *pure) cast(t int, v types.Value) {
	v = plus(v)
	ct := fromColType([]int{t, 0, 0, 0})
	var r types.Value
	res := p.call(func() (Res, error) {
		var err error
		r, err = types.CastValue(ct.Type, v)
		if err != nil {
			return nil, err
		}
		return Res{"ok", toVal(r)}, nil
	})
	again := res
	if ok(res) {
		again = p.call(func() (Res, error) {
			r, err := types.CastValue(ct.Type, r)
			if err != nil {
				return nil, err
			}
			return Res{"ok", toVal(r)}, nil
		})
	}
	p.tw.line(M{"op": "cast", "t": t, "v": toVal(v), "res": res, "again": again})
}

func (p *pure) convert(ct []int, v types.Value) {
	v = plus(v)
	var r types.Value
	res := p.call(func() (Res, error) {
		var err error
		r, err = types.ConvertValue(fromColType(ct), v)
		if err != nil {
			return nil, err
		}
		return Res{"ok", toVal(r)}, nil
	})
	again := res
	if ok(res) {
		again = p.call(func() (Res, error) {
			r, err := types.ConvertValue(fromColType(ct), r)
			if err != nil {
				return nil, err
			}
			return Res{"ok", toVal(r)}, nil
		})
	}
	p.tw.line(M{"op": "convert", "ct": ct, "v": toVal(v), "res": res, "again": again})
}

func (p *pure) convertRow(cts [][]int, row types.Row) {
	var types_ []types.ColumnType
	for _, ct := range cts {
		types_ = append(types_, fromColType(ct))
	}
	given := []Val{}
	for i, v := range row {
		row[i] = plus(v)
		given = append(given, toVal(v))
	}
	res := p.call(func() (Res, error) {
		r, err := types.ConvertRow(types_, row)
		if err != nil {
			return nil, err
		}
		vs := []Val{}
		for _, v := range r {
			vs = append(vs, toVal(v))
		}
		return Res{"ok", vs}, nil
	})
	after := []Val{}
	for _, v := range row {
		after = append(after, toVal(v))
	}
	p.tw.line(M{"op": "row", "cts": cts, "row": given, "after": after, "res": res})
}

var colTypePool = [][]int{{1, 0, 0, 0}, {2, 2, 0, 0}, {2, 4, 0, 0}, {2, 8, 0, 0}, {3, 0, 0, 0},
	{4, 1, 0, 0}, {4, 3, 1, 0}, {4, 8, 0, 0}, {4, maxTLC, 0, 0}, {5, 1, 0, 0}, {5, 3, 1, 0}, {5, 20, 0, 0},
	{5, maxTLC, 0, 0}}

func randColType(r *rand.Rand) []int {
	ct := slices.Clone(pick(r, colTypePool))
	ct[3] = r.Intn(2)
	return ct
}

func (p *pure) allConv() {
	vs := corePool()
	for _, s := range textPool {
		vs = append(vs, types.StringValue(s), types.BytesValue(s))
	}
	for _, s := range hardTexts {
		for t := 1; t <= 5; t++ {
			p.cast(t, types.StringValue(s))
		}
	}
	for _, i := range []int64{32767, 32768, -32768, -32769, 2147483647, 2147483648, -2147483648, -2147483649} {
		vs = append(vs, types.Int64Value(i), types.Float64Value(i), types.Float64Value(float64(i)+0.5),
			types.Float64Value(float64(i)-0.5))
	}
	for _, v := range vs {
		for t := 1; t <= 5; t++ {
			p.cast(t, v)
		}
		for _, ct := range colTypePool {
			for nn := 0; nn < 2; nn++ {
				c := slices.Clone(ct)
				c[3] = nn
				p.convert(c, v)
			}
		}
	}
	// Sizes of strings and bytes.
	for _, n := range longLengths {
		s := strings.Repeat("a", n)
		for _, sz := range []int{n - 1, n, n + 1, n % 128, n % 256, 255, 256, 65535, maxTLC} {
			if sz == 0 {
				continue
			}
			for t := 4; t <= 5; t++ {
				p.convert([]int{t, sz, n % 2, 0}, types.StringValue(s))
				p.convert([]int{t, sz, n % 2, 0}, types.BytesValue(s))
			}
		}
	}
	for _, i := range bIntsPool {
		p.cast(3, types.Int64Value(i))
		p.cast(4, types.Int64Value(i))
		for _, sz := range []int{2, 4, 8} {
			p.convert([]int{2, sz, 0, 1}, types.Int64Value(i))
		}
	}
	for _, f := range bFloatsPool {
		p.cast(2, types.Float64Value(f))
		p.cast(4, types.Float64Value(f))
	}
}

func (p *pure) randConv() {
	if p.r.Intn(20) == 0 {
		b := longBytes(p.r)
		if p.r.Intn(4) == 0 { // a number in a lot of space
			b = []byte(strings.Repeat(" ", len(b)) + pick(p.r, textPool) + strings.Repeat(" ", p.r.Intn(200)))
		}
		ct := []int{pick(p.r, []int{4, 4, 5, 5, 2, 3, 1}), 8, p.r.Intn(2), p.r.Intn(2)}
		if ct[0] > 3 {
			ct[1] = max(1, len(b)+p.r.Intn(3)-1)
			if p.r.Intn(3) == 0 {
				ct[1] = pick(p.r, longLengths)
			}
		}
		p.convert(ct, types.StringValue(b))
		p.convert(ct, types.BytesValue(b))
		return
	}
	switch p.r.Intn(5) {
	case 0, 1:
		p.cast(1+p.r.Intn(5), randValue(p.r, pick(p.r, []int{2, 3, 4, 4, 4, 5, 1})))
	case 2, 3:
		p.convert(randColType(p.r), randValue(p.r, pick(p.r, []int{0, 2, 3, 3, 4, 4, 4, 4, 5, 5, 1})))
	case 4:
		n := 1 + p.r.Intn(5)
		var cts [][]int
		var row types.Row
		for i := 0; i < n; i++ {
			ct := randColType(p.r)
			cts = append(cts, ct)
			if p.r.Intn(4) != 0 {
				row = append(row, randValue(p.r, ct[0]))
			} else {
				row = append(row, randValue(p.r, p.r.Intn(6)))
			}
		}
		switch p.r.Intn(5) {
		case 0:
			cts = cts[:p.r.Intn(n+1)]
		}
		if len(cts) == 0 {
			cts = [][]int{{1, 0, 0, 0}}
		}
		if len(row) < len(cts) {
			cts = cts[:len(row)]
		}
		p.convertRow(cts, row)
	}
}

func pureRandom(profile string, seed int64, n int, out string) {
	p := &pure{tw: newTrace(out), r: rand.New(rand.NewSource(seed))}
	var last any
	p.ck = newClock(func() {
		p.tw.line(M{"op": "hang", "last": last, "res": Res{"hang"}})
		p.tw.close()
	})
	all := map[string]func(){"C14": p.allKeys, "C15": p.allVarints, "C16": p.allCmp, "C17": p.allConv}[profile]
	one := map[string]func(){"C14": p.randKeys, "C15": p.randVarint, "C16": p.randCmp, "C17": p.randConv}[profile]
	if seed < 0 {
		all()
	} else {
		for p.tw.n < n {
			one()
		}
	}
	p.tw.close()
}
