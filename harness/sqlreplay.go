package main

import (
	"encoding/json"
	"reflect"
	"strings"
)

// Scripts, and what parsing them must give, as spec/SqlMC.tla writes them.
type sqlScript struct {
	Toks  []string `json:"toks"`
	Text  []int    `json:"text"`
	Take  []int    `json:"take"`
	Res   [][]any  `json:"res"`
	Cut   bool     `json:"cut"`   // reading fails at the end of the text
	Times int      `json:"times"` // how often the text and its results are repeated
}

// sqlFollows reports the first result, if any, which is not as expected: the result's number is
// k, and then what was wanted of it.
func sqlFollows(want [][]any, got []any, k int) (bool, int, any) {
	for i, w := range want {
		kind := w[0].(string)
		switch kind {
		case "wild":
			return true, 0, nil
		case "lost":
			if k < len(got) && reflect.DeepEqual(got[k], []any{"err"}) {
				return true, 0, nil
			}
			return false, k, w
		case "any":
			if k >= len(got) {
				return false, k, w
			} else if g := got[k].([]any)[0]; g != "stmt" && g != "err" {
				return false, k, w
			}
		case "errs":
			at, what := k, any(w)
			for n := 0; n < int(w[1].(float64)); n++ {
				if k >= len(got) || !reflect.DeepEqual(got[k], []any{"err"}) {
					break
				}
				k++
				ok, a, wh := sqlFollows(want[i+1:], got, k)
				if ok {
					return true, 0, nil
				} else if a > at {
					at, what = a, wh
				}
			}
			return false, at, what
		default:
			if k >= len(got) || !reflect.DeepEqual(got[k], any(w)) {
				return false, k, w
			}
		}
		k++
	}
	if k < len(got) {
		return false, k, "no more results"
	}
	return true, 0, nil
}

func sqlReplay(in, out string) {
	replay(in, out, nil, func(rp *replayer, clk *clock, b []byte) {
		var s sqlScript
		err := json.Unmarshal(b, &s)
		if err != nil {
			fatal(string(b), err)
		}
		text := strings.Join(s.Toks, " ")
		if s.Toks == nil {
			x := make([]rune, len(s.Text))
			for i, r := range s.Text {
				x[i] = rune(r)
			}
			text = string(x)
		}
		if s.Times > 1 {
			text = strings.Repeat(text, s.Times)
			last := len(s.Res) - 1
			var res [][]any
			for n := 0; n < s.Times; n++ {
				res = append(res, s.Res[:last]...)
			}
			s.Res = append(res, s.Res[last])
		}
		sp := &sqlParser{clk: clk, cut: s.Cut}
		res := sp.parse(&runesReader{x: []rune(text), cut: s.Cut, once: rp.events.Load()%2 == 0, err: int(rp.events.Load()) % len(errCuts)}, len([]rune(text)), s.Take)
		rp.events.Add(int64(len(res)))

		j, err := json.Marshal(res)
		if err != nil {
			fatal(string(text), err)
		}
		var got []any
		err = json.Unmarshal(j, &got)
		if err != nil {
			fatal(string(text), err)
		}
		ok, k, want := sqlFollows(s.Res, got, 0)
		if !ok {
			var g any = "no result"
			if k < len(got) {
				g = got[k]
			}
			rp.mismatch(b, k, text, want, g)
		}
	})
}
