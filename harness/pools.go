package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/leftmike/maho/types"
)

// boundaryInts are the integers around powers of two and ten.
func boundaryInts() []int64 {
	seen := map[int64]bool{}
	var is []int64
	add := func(i int64) {
		if !seen[i] {
			seen[i] = true
			is = append(is, i)
		}
	}
	for k := 0; k < 64; k++ {
		for d := int64(-1); d <= 1; d++ {
			p := int64(1) << k // the last one is the minimum
			add(p + d)
			add(-p + d)
		}
	}
	p := int64(1)
	for k := 0; k < 18; k++ {
		p *= 10
		for d := int64(-1); d <= 1; d++ {
			add(p + d)
			add(-p + d)
		}
	}
	return is
}

func boundaryFloats() []float64 {
	seen := map[uint64]bool{}
	var fs []float64
	add := func(f float64) {
		for _, f := range []float64{f, -f} {
			u := math.Float64bits(f)
			if !seen[u] {
				seen[u] = true
				fs = append(fs, f)
			}
		}
	}
	add(0)
	add(math.Inf(1))
	add(math.NaN())
	add(math.MaxFloat64)
	add(math.SmallestNonzeroFloat64)
	add(math.Float64frombits(0x000FFFFFFFFFFFFF))
	add(math.Float64frombits(0x0010000000000000))
	for _, k := range []int{-1022, -1021, -300, -20, -3, -2, -1, 0, 1, 2, 3, 10, 31, 32, 52, 53, 54,
		61, 62, 63, 64, 65, 300, 1023} {
		f := math.Ldexp(1, k)
		add(f)
		add(math.Nextafter(f, 0))
		add(math.Nextafter(f, math.Inf(1)))
	}
	for _, f := range []float64{0.1, 0.5, 1.5, 2.5, 99.99, 100000, 999999, 1000000, 123456, 1234567,
		0.0001, 0.00001, 0.00012345, 3.25, 1e15, 1e16, 1e20, 1e21, 1e22, 32767, 32768, 32767.5,
		-32768.5, 2147483647, 2147483648, 2147483647.75} {
		add(f)
	}
	return fs
}

// smallStrings are all strings of up to n of the bytes.
func smallStrings(bs []byte, n int) []string {
	ss := []string{""}
	last := ss
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, b := range bs {
				next = append(next, s+string([]byte{b}))
			}
		}
		ss = append(ss, next...)
		last = next
	}
	return ss
}

var textPool = []string{"", " ", "0", "1", "-1", "+1", "01", " 12 ", "\t7\n", "\v8", "\r9", "9 9", "1.5", ".5", "5.",
	"-.25", "1e3", "1E-2", "1e", "e1", "1.5.5", "--1", "+-1", "0x10", "1_000", "nan", "Infinity", "t",
	"true", "TRUE", "f", "false", "y", "yes", "n", "no", "on", "off", " yes ", "yess", "tr", "9223372036854775807",
	"9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999",
	"32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649",
	"1.7976931348623157", "0.1", "100000", "1000000", "123456.75", "12345678901234567", "9007199254740993",
	"a", "\x00", "\x00\x01", "héllo", "\xff", "\xc3\xa9", "\xed\xa0\x80", "abc", "abcd", "\u00a01", "١"}

func randInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return int64(r.Intn(21) - 10)
	case 1:
		return int64(r.Uint64() >> r.Intn(64))
	case 2:
		return -int64(r.Uint64() >> r.Intn(64))
	}
	return pick(r, bIntsPool)
}

func randFloat(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return float64(r.Intn(21)-10) / 4
	case 1:
		return math.Float64frombits(r.Uint64())
	case 2:
		f := float64(randInt(r))
		if r.Intn(2) == 0 {
			f = math.Nextafter(f, math.Inf(r.Intn(2)*2-1))
		}
		return f
	case 3: // a few decimal digits
		return float64(r.Intn(2000000)-1000000) / math.Pow(10, float64(r.Intn(8)))
	case 4:
		return float64(r.Int63n(1<<40)) * math.Pow(2, float64(r.Intn(12)-6))
	}
	return pick(r, bFloatsPool)
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, r.Intn(n+1))
	k := r.Intn(3)
	for i := range b {
		switch k {
		case 0:
			b[i] = byte(r.Intn(4))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b[i] = pick(r, []byte{0, 1, 2, 127, 128, 254, 255, 'a'})
		}
	}
	return b
}

var (
	bIntsPool   = boundaryInts()
	bFloatsPool = boundaryFloats()
)

var hardTexts = []string{"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308",
	"-1.797693134862315807e+308", "1.797693134862315809e308", "1e308", "1e309", "-1e309", "2e308", "1e400", "1e-400", "1e9999",
	"1e-9999", "0e400", "0.0e999", "0e-999", "5e-324", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
	"2.5e-324", "1e-323", "1.5e-323", "2.2250738585072011e-308", "2.2250738585072014e-308", "2.2250738585072012e-308",
	"00000000000000000000000000001.5", "1" + strings.Repeat("0", 308) + ".", "1" + strings.Repeat("0", 309), "1e00000000000000001",
	strings.Repeat("9", 400) + "e-400", "0." + strings.Repeat("0", 330) + "1e331", "9223372036854775807.5", "18446744073709551616",
	"9007199254740993", "9007199254740992.999999999999999", "9007199254740993.0000000000000000000001"}

// hardNumber is text of a number which is large, small, long or close to
// the middle between two floats.
func hardNumber(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return pick(r, hardTexts)
	case 1:
		return fmt.Sprintf("%s%d.%de%d", pick(r, []string{"", "-", "+"}), r.Intn(100), r.Intn(1000000), r.Intn(660)-330)
	case 2:
		return fmt.Sprintf("%d%d.%d%d", r.Int63(), r.Int63(), r.Int63(), r.Int63())
	case 3:
		return strconv.FormatFloat(math.Float64frombits(r.Uint64()), pick(r, []byte("eEfg")), r.Intn(19)-1, 64)
	}
	f := math.Float64frombits(r.Uint64() & 0x7FFFFFFFFFFFFFFF)
	if r.Intn(4) != 0 { // not so long
		f = math.Ldexp(1+float64(r.Int63n(1<<52))/(1<<52), r.Intn(200)-100)
	}
	if math.IsNaN(f) || math.IsInf(f, 0) || f == math.MaxFloat64 {
		return "1"
	}
	a := new(big.Float).SetPrec(3000).SetFloat64(f)
	a.Add(a, new(big.Float).SetFloat64(math.Nextafter(f, math.Inf(1))))
	a.Quo(a, big.NewFloat(2))
	s := a.Text('e', 780)
	i := strings.Index(s, "e")
	m := strings.TrimRight(s[:i], "0")
	if !strings.Contains(m, ".") {
		m += "."
	}
	switch r.Intn(3) { // a little more or less
	case 0:
		m += strings.Repeat("0", r.Intn(20)) + "1"
	case 1:
		if c := m[len(m)-1]; c > '0' && c <= '9' {
			m = m[:len(m)-1] + string(rune(c-1)) + strings.Repeat("9", r.Intn(20))
		}
	}
	return m + s[i:]
}

// randText is text which is often that of a number or a boolean.
func randText(r *rand.Rand) string {
	digits := func(n int) string {
		s := ""
		for i := r.Intn(n + 1); i > 0; i-- {
			s += string(rune('0' + r.Intn(10)))
		}
		return s
	}
	var s string
	switch r.Intn(8) {
	case 7:
		return hardNumber(r)
	case 0:
		return pick(r, textPool)
	case 1:
		s = pick(r, []string{"", "", "-", "+"}) + digits(20)
	case 2:
		s = pick(r, []string{"", "", "-", "+"}) + digits(9) + "." + digits(9)
	case 3:
		s = pick(r, []string{"", "-"}) + digits(4) + pick(r, []string{".", ""}) + digits(4) +
			pick(r, []string{"e", "E"}) + pick(r, []string{"", "-", "+"}) + digits(2)
	case 4:
		s = pick(r, []string{"t", "true", "f", "false", "y", "yes", "n", "no", "on", "off", "1", "0"})
		switch r.Intn(4) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = s[:r.Intn(len(s)+1)]
		}
	case 5:
		return string(randBytes(r, 6))
	case 6:
		s = pick(r, []string{"é", "日本", "\U0001F600", "a\u0301", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xf4\x90\x80\x80"})
	}
	for i := r.Intn(3); i > 0; i-- {
		s = pick(r, []string{" ", "\t", "\n", "\r", "\v"}) + s
	}
	if r.Intn(4) == 0 {
		s += pick(r, []string{" ", "\t", "\n", " \n", "x"})
	}
	return s
}

func randValue(r *rand.Rand, t int) types.Value {
	switch t {
	case 1:
		return types.BoolValue(r.Intn(2) == 0)
	case 2:
		return types.Int64Value(randInt(r))
	case 3:
		return types.Float64Value(randFloat(r))
	case 4:
		if r.Intn(2) == 0 {
			return types.StringValue(randText(r))
		}
		return types.StringValue(randBytes(r, 5))
	case 5:
		return types.BytesValue(randBytes(r, 5))
	}
	return nil
}

// Lengths around which representations change.
var longLengths = []int{63, 64, 65, 126, 127, 128, 129, 130, 191, 254, 255, 256, 257, 300, 511, 512, 513}

// longBytes is a long string.
func longBytes(r *rand.Rand) []byte {
	n := pick(r, longLengths)
	b := make([]byte, n)
	c := pick(r, []byte{0, 1, 2, 'a', 'a', 128, 255})
	for i := range b {
		b[i] = c
		if r.Intn(40) == 0 {
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

// longNear is a string which differs from another one in one place, or is longer or shorter.
func longNear(r *rand.Rand, s []byte) []byte {
	b := append([]byte{}, s...)
	switch r.Intn(4) {
	case 0:
		if len(b) > 0 {
			b[r.Intn(len(b))] += byte(1 + r.Intn(255))
		}
	case 1:
		b = b[:r.Intn(len(b)+1)]
	case 2:
		b = b[:min(len(b), pick(r, longLengths))]
	case 3:
		c := pick(r, []byte{0, 1, 'a', 255})
		for n := pick(r, longLengths); n > 0; n-- {
			b = append(b, c)
		}
	}
	return b
}
