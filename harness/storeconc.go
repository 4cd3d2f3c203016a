package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
)

type concTx struct {
	Call int64            `json:"call"`
	Ret  int64            `json:"ret"`
	Evs  []map[string]any `json:"evs"`
}

type concHist struct {
	mu   sync.Mutex
	Defs []*Def    `json:"defs"`
	Txs  []*concTx `json:"txs"`
}

func pause(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(r.Intn(150)) * time.Microsecond)
	}
}

// concRun is one transaction being run and recorded.
type concRun struct {
	h  *concHist
	tx *concTx
	x  *storeExec
	r  *rand.Rand
}

func (c *concRun) do(e *SEv) Res {
	pause(c.r)
	e.Res = Res{"hang"}
	c.h.mu.Lock()
	c.tx.Evs = append(c.tx.Evs, e.line())
	n := len(c.tx.Evs) - 1
	c.h.mu.Unlock()
	e.Res = c.x.do(e)
	c.h.mu.Lock()
	c.tx.Evs[n] = e.line()
	c.h.mu.Unlock()
	return e.Res
}

func (c *concRun) scan(tid, def int) []Val2 {
	res := c.do(&SEv{Op: "scan", Tid: tid, Def: def, Cols: []int{-1}})
	if res[0] == "rows" {
		return res[1].([]Val2)
	}
	return nil
}

// concTransaction runs one transaction: most of them write what depends on what they read.
func concTransaction(h *concHist, st storage.Store, clk *clock, r *rand.Rand, seq *atomic.Int64,
	unique *atomic.Int64) {

	tx := &concTx{Call: seq.Add(1), Ret: 1 << 30}
	h.mu.Lock()
	h.Txs = append(h.Txs, tx)
	h.mu.Unlock()
	c := &concRun{h: h, tx: tx, x: newStoreExecOn(clk, h.Defs, st), r: r}
	c.do(&SEv{Op: "begin"})
	tid, def := 20, 1
	if r.Intn(3) == 0 {
		tid, def = 21, 2
	}
	inc := func(rows []Val2, by int64) {
		if len(rows) == 0 {
			return
		}
		row := pick(r, rows)
		c.do(&SEv{Op: "updk", Tid: tid, Def: def, Row: row, Cols: []int{1},
			Vals: []Val{intVal(int64(valInt(row[1])) + by)}})
	}
	switch r.Intn(8) {
	case 0, 1, 2: // change values which were read
		for i := 0; i <= r.Intn(3); i++ {
			inc(c.scan(tid, def), 1)
		}
	case 3: // insert a row of its own and one which others might insert
		c.do(&SEv{Op: "insert", Tid: tid, Def: def,
			Rows: []Val2{{intVal(100 + unique.Add(1)), intVal(0)}}})
		c.do(&SEv{Op: "insert", Tid: tid, Def: def,
			Rows: []Val2{{intVal(int64(r.Intn(6))), intVal(unique.Add(1))}}})
	case 4: // delete what was read
		rows := c.scan(tid, def)
		if len(rows) > 2 {
			c.do(&SEv{Op: "delk", Tid: tid, Def: def, Row: pick(r, rows)})
		}
		c.scan(tid, def)
	case 5: // only read, twice
		c.scan(20, 1)
		c.scan(21, 2)
		pause(r)
		c.scan(20, 1)
		c.scan(21, 2)
	case 6: // move from one table to the other
		a := c.scan(20, 1)
		b := c.scan(21, 2)
		tid, def = 20, 1
		inc(a, -1)
		tid, def = 21, 2
		inc(b, 1)
	case 7: // tables
		if r.Intn(2) == 0 {
			c.do(&SEv{Op: "create", Tid: 22, Def: 1})
			c.do(&SEv{Op: "insert", Tid: 22, Def: 1,
				Rows: []Val2{{intVal(unique.Add(1)), intVal(0)}}})
		} else {
			c.scan(22, 1)
			c.do(&SEv{Op: "drop", Tid: 22})
		}
	}
	pause(r)
	if r.Intn(4) == 0 {
		c.do(&SEv{Op: "rollback"})
	} else {
		c.do(&SEv{Op: "commit"})
	}
	tx.Ret = seq.Add(1)
}

func valInt(v Val) int64 {
	var i int64
	fmt.Sscan(fmt.Sprint(fromVal(v)), &i)
	return i
}

// storeConc records n histories of concurrent transactions.
func storeConc(seed int64, n int, out string) {
	tw := newTrace(out)
	var mu sync.Mutex
	hists := map[*concHist]bool{}
	hang := func() {
		mu.Lock()
		for h := range hists {
			h.mu.Lock()
			tw.line(h)
		}
		tw.close()
	}
	d1 := &Def{DB: mkName(false, "d"), SC: mkName(false, "s"), TB: mkName(false, "t"),
		Cols:  []Name{mkName(false, "k"), mkName(false, "v")},
		Types: [][]int{{2, 8, 0, 1}, {2, 8, 0, 1}}, Key: [][2]int{{0, 0}}}
	d2 := &Def{DB: d1.DB, SC: d1.SC, TB: mkName(false, "u"), Cols: d1.Cols, Types: d1.Types,
		Key: [][2]int{{0, 1}}}
	var wg sync.WaitGroup
	sem := make(chan bool, 2)
	for i := 0; i < n; i++ {
		sem <- true
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rand.New(rand.NewSource(seed + int64(i)))
			h := &concHist{Defs: []*Def{d1, d2}}
			mu.Lock()
			hists[h] = true
			mu.Unlock()
			st, err := basic.NewStore("")
			if err != nil {
				fatal(err)
			}
			var seq, unique atomic.Int64
			clk := newClock(hang)
			tx := &concTx{Call: seq.Add(1), Ret: 1 << 30}
			h.Txs = append(h.Txs, tx)
			c := &concRun{h: h, tx: tx, x: newStoreExecOn(clk, h.Defs, st), r: r}
			c.do(&SEv{Op: "begin"})
			c.do(&SEv{Op: "create", Tid: 20, Def: 1})
			c.do(&SEv{Op: "create", Tid: 21, Def: 2})
			for k := int64(0); k < 3; k++ {
				c.do(&SEv{Op: "insert", Tid: 20, Def: 1, Rows: []Val2{{intVal(k), intVal(0)}}})
				c.do(&SEv{Op: "insert", Tid: 21, Def: 2, Rows: []Val2{{intVal(k), intVal(0)}}})
			}
			c.do(&SEv{Op: "commit"})
			tx.Ret = seq.Add(1)
			var g sync.WaitGroup
			workers := 2 + r.Intn(4)
			for w := 0; w < workers; w++ {
				g.Add(1)
				gr := rand.New(rand.NewSource(r.Int63()))
				go func() {
					defer g.Done()
					clk := newClock(hang)
					defer clk.done()
					for t := 0; t < 3; t++ {
						concTransaction(h, st, clk, gr, &seq, &unique)
						pause(gr)
					}
				}()
			}
			g.Wait()
			tx = &concTx{Call: seq.Add(1), Ret: 1 << 30}
			h.Txs = append(h.Txs, tx)
			c = &concRun{h: h, tx: tx, x: newStoreExecOn(clk, h.Defs, st), r: r}
			c.do(&SEv{Op: "begin"})
			for tid, def := range map[int]int{20: 1, 21: 2, 22: 1} {
				c.scan(tid, def)
			}
			c.do(&SEv{Op: "commit"})
			tx.Ret = seq.Add(1)
			clk.done()
			mu.Lock()
			delete(hists, h)
			tw.line(h)
			mu.Unlock()
		}()
	}
	wg.Wait()
	tw.close()
}
