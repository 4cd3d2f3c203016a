package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
)

type tableState struct {
	Tid  int    `json:"tid"`
	Def  int    `json:"def"`
	Rows []Val2 `json:"rows"`
}

type storePath struct {
	Defs []*Def `json:"defs"`
	Path []struct {
		E   json.RawMessage `json:"e"`
		Res Res             `json:"res"`
	} `json:"path"`
	Act bool         `json:"act"`
	Cur []tableState `json:"cur"`
	Com []tableState `json:"com"`
}

// replayer runs paths in parallel and reports those which the real code does not follow.
type replayer struct {
	tw     *traceWriter
	paths  atomic.Int64
	events atomic.Int64
	bad    atomic.Int64
}

func (rp *replayer) mismatch(line []byte, at int, what string, want, got any) {
	if rp.bad.Add(1) > 20 {
		return
	}
	rp.tw.line(map[string]any{"path": json.RawMessage(line), "at": at, "what": what, "want": want,
		"got": got})
}

func (rp *replayer) summary() {
	b, _ := json.Marshal(map[string]int64{"paths": rp.paths.Load(), "events": rp.events.Load(),
		"mismatches": rp.bad.Load()})
	fmt.Println(string(b))
}

// replay reads lines of a file and runs fn on each in parallel; the first is given to first.
func replay(in, out string, first func(b []byte) bool, fn func(rp *replayer, clk *clock, b []byte)) {
	rp := &replayer{tw: newTrace(out)}
	work := make(chan []byte, 1000)
	var wg sync.WaitGroup
	start := func() {
		for i := 0; i < runtime.NumCPU(); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var cur []byte
				clk := newClock(func() {
					rp.mismatch(cur, -1, "hang", nil, nil)
					rp.tw.close()
					rp.summary()
					os.Exit(0)
				})
				defer clk.done()
				for b := range work {
					cur = b
					fn(rp, clk, b)
					rp.paths.Add(1)
				}
			}()
		}
	}
	started := false
	readLines(in, func(n int, b []byte) {
		if n == 1 && first != nil && first(b) {
			return
		}
		if !started {
			started = true
			start()
		}
		work <- append([]byte(nil), b...)
	})
	close(work)
	wg.Wait()
	rp.tw.close()
	rp.summary()
}

func (x *storeExec) observe(want []tableState, tids map[int]bool) (string, any, any) {
	have := map[int]bool{}
	for _, t := range want {
		have[t.Tid] = true
		res := x.do(&SEv{Op: "scan", Tid: t.Tid, Def: t.Def, Cols: []int{-1}})
		if t.Rows == nil {
			t.Rows = []Val2{}
		}
		exp := Res{"rows", t.Rows}
		if !sameJSON(res, exp) {
			return fmt.Sprintf("table %d", t.Tid), exp, res
		}
	}
	for tid := range tids {
		if !have[tid] {
			for d := range x.defs {
				if d > 2 {
					break
				}
				res := x.do(&SEv{Op: "open", Tid: tid, Def: d + 1})
				if ok(res) {
					return fmt.Sprintf("table %d must not exist", tid), resRej, res
				}
			}
		}
	}
	return "", nil, nil
}

func sameArgs(a, b defArgs) bool {
	return fmt.Sprint(a) == fmt.Sprint(b)
}

func storeReplay(in, out string) {
	var defs []*Def
	replay(in, out,
		func(b []byte) bool {
			var p storePath
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err)
			}
			defs = p.Defs
			return true
		},
		func(rp *replayer, clk *clock, b []byte) {
			var p storePath
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err, string(b))
			}
			x := newStoreExec(clk, defs)
			tids := map[int]bool{}
			open := map[int]bool{}
			for i, s := range p.Path {
				var e SEv
				if err := json.Unmarshal(s.E, &e); err != nil {
					fatal(err, string(b))
				}
				if e.Tid != 0 {
					tids[e.Tid] = true
				}
				e.Keep = i & 1
				res := x.do(&e)
				rp.events.Add(1)
				good := sameJSON(res, s.Res)
				if e.Op == "open" && ok(s.Res) {
					n, isInt := 0, false
					if len(res) == 2 {
						n, isInt = res[1].(int)
					}
					good = isInt && n > 0 && sameArgs(x.args[n-1], x.args[e.Def-1])
				}
				if !good {
					rp.mismatch(b, i, e.Op, s.Res, res)
					return
				}
				if ok(res) {
					switch e.Op {
					case "rows":
						open[e.C] = true
					case "close":
						delete(open, e.C)
					}
				}
			}
			if p.Act {
				if what, want, got := x.observe(p.Cur, tids); what != "" {
					rp.mismatch(b, len(p.Path), "in the transaction: "+what, want, got)
					return
				}
				for c := range open {
					if !ok(x.do(&SEv{Op: "close", C: c})) {
						rp.mismatch(b, len(p.Path), "close", resOK, resRej)
						return
					}
				}
				if !ok(x.do(&SEv{Op: "rollback"})) {
					rp.mismatch(b, len(p.Path), "rollback", resOK, resRej)
					return
				}
			}
			x.do(&SEv{Op: "begin"})
			if what, want, got := x.observe(p.Com, tids); what != "" {
				rp.mismatch(b, len(p.Path), "committed: "+what, want, got)
				return
			}
			if !ok(x.do(&SEv{Op: "rollback"})) {
				rp.mismatch(b, len(p.Path), "last rollback", resOK, resRej)
			}
		})
}
