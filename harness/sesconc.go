package main

import (
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// sesConcRun is a session of a history being run and recorded.
type sesConcRun struct {
	h    *concHist
	clk  *clock
	r    *rand.Rand
	num  int
	eng  *recEngine
	ses  *evaluate.Session
	tx   *concTx
	seq  *atomic.Int64
	open bool
}

func (c *sesConcRun) start() {
	c.tx = &concTx{Call: c.seq.Add(1), Ret: 1 << 30}
	c.h.mu.Lock()
	c.h.Txs = append(c.h.Txs, c.tx)
	c.h.mu.Unlock()
}

func (c *sesConcRun) end() { c.tx.Ret = c.seq.Add(1) }

func (c *sesConcRun) do(e *SesEv) Res {
	pause(c.r)
	e.Ses = c.num
	e.style = c.r.Intn(1000000)
	e.Res = Res{"hang"}
	switch e.Op {
	case "dbs", "schemas", "open":
	default:
		e.text = e.sql()
	}
	c.h.mu.Lock()
	c.tx.Evs = append(c.tx.Evs, e.line())
	n := len(c.tx.Evs) - 1
	c.h.mu.Unlock()
	e.Res = c.clk.guard(func() (Res, error) {
		switch e.Op {
		case "dbs":
			ids, err := c.eng.ListDatabases()
			return names(ids), err
		case "schemas":
			ids, err := c.eng.tx.ListSchemas(ctx, e.DB.id())
			return names(ids), err
		case "open":
			return openTable(c.eng.tx, types.TableName{Database: e.DB.id(), Schema: e.SC.id(), Table: e.TB.id()})
		}
		stmt, err := parseOne(e.text)
		if err != nil {
			return nil, err
		}
		return resOK, c.ses.Evaluate(ctx, stmt)
	})
	if e.Op == "unsupported" && len(e.Res) == 1 && e.Res[0] == "panic" {
		e.Res = resRej
	}
	c.h.mu.Lock()
	c.tx.Evs[n] = e.line()
	c.h.mu.Unlock()
	return e.Res
}

var (
	concDbs     = []Name{mkName(false, "maho"), mkName(false, "maho"), mkName(false, "d")}
	concSchemas = []Name{mkName(false, "public"), mkName(false, "s"), mkName(false, "s"), mkName(true, "u v")}
	concTables  = []Name{mkName(false, "t"), mkName(false, "u"), mkName(true, "T")}
	concItems   = [][]Item{
		{{Kind: "col", Name: mkName(false, "a"), Type: DeclType{"int", -1}, Cons: []string{"pk"}}},
		{{Kind: "col", Name: mkName(false, "a"), Type: DeclType{"text", -1}, Cons: []string{"nn"}},
			{Kind: "col", Name: mkName(false, "b"), Type: DeclType{"bytes", -1}, Cons: []string{}},
			{Kind: "pk", Key: []KeyCol{{mkName(false, "b"), 1}, {mkName(false, "a"), 0}}}},
		{{Kind: "col", Name: mkName(false, "a"), Type: DeclType{"bool", -1}, Cons: []string{}},
			{Kind: "pk", Key: []KeyCol{{mkName(false, "c"), 0}}}}, // refused
	}
)

// statement executes a statement which may change the catalog.
func (c *sesConcRun) statement() {
	r := c.r
	e := &SesEv{}
	qualify := func() {
		switch r.Intn(4) {
		case 0:
			e.SC = pick(r, concSchemas)
		case 1:
		default:
			e.DB, e.SC = pick(r, concDbs), pick(r, concSchemas)
		}
	}
	switch weighted(r, 4, 3, 8, 1, 1, 1, 2, 1) {
	case 0:
		e.Op = "cschema"
		qualify()
		if e.SC == nil {
			e.SC = pick(r, concSchemas)
		}
	case 1:
		e.Op, e.Ifx = "dschema", r.Intn(2)
		qualify()
		if e.SC == nil {
			e.SC = pick(r, concSchemas)
		}
	case 2:
		e.Op, e.Ifx = "ctable", r.Intn(2)
		qualify()
		e.TB = pick(r, concTables)
		e.Items = concItems[weighted(r, 3, 3, 1)]
	case 3:
		e.Op = "createdb"
		e.DB = mkName(false, "d")
	case 4:
		e.Op, e.Ifx = "dropdb", r.Intn(2)
		e.DB = mkName(false, "d")
	case 5:
		e.Op, e.Kind = "unsupported", "insert"
		e.TB = pick(r, concTables)
	case 6:
		e.Op = "setsc"
		e.Val = ints([]byte(pick(r, []string{"public", "s"})))
	case 7:
		e.Op = "cindex"
		e.TB = pick(r, concTables)
		e.Key = []KeyCol{{mkName(false, pick(r, []string{"a", "b"})), 0}}
	}
	c.do(e)
}

// look reads some of the catalog in a transaction.
func (c *sesConcRun) look(all bool) {
	for _, db := range concDbs[1:] {
		if all || c.r.Intn(3) == 0 {
			c.do(&SesEv{Op: "schemas", DB: db})
		}
		for _, sc := range concSchemas[:3] {
			for _, tb := range concTables {
				if all || c.r.Intn(6) == 0 {
					c.do(&SesEv{Op: "open", DB: db, SC: sc, TB: tb})
				}
			}
		}
	}
}

func (c *sesConcRun) transaction() {
	c.start()
	defer c.end()
	r := c.r
	switch r.Intn(8) {
	case 0, 1, 2:
		c.statement()
		return
	case 3:
		c.do(&SesEv{Op: "dbs"})
		return
	}
	if !ok(c.do(&SesEv{Op: "begin"})) {
		return
	}
	before := r.Intn(2) == 0
	if before {
		c.look(false)
	}
	for i := 0; i <= r.Intn(4); i++ {
		c.statement()
	}
	if before || r.Intn(2) == 0 {
		pause(r)
		c.look(false)
	}
	if r.Intn(4) == 0 {
		c.do(&SesEv{Op: "rollback"})
	} else {
		c.do(&SesEv{Op: "commit"})
	}
}

// sesConc records n histories of concurrent sessions.
func sesConc(seed int64, n int, out string) {
	tw := newTrace(out)
	var mu sync.Mutex
	hists := map[*concHist]bool{}
	hang := func() {
		mu.Lock()
		for h := range hists {
			h.mu.Lock()
			tw.line(h)
		}
		tw.close()
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 2)
	for i := 0; i < n; i++ {
		sem <- true
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rand.New(rand.NewSource(seed + int64(i)))
			h := &concHist{Defs: []*Def{}, Txs: []*concTx{}}
			mu.Lock()
			hists[h] = true
			mu.Unlock()
			st, err := basic.NewStore("")
			if err != nil {
				fatal(err)
			}
			if err := engine.Init(st); err != nil {
				fatal(err)
			}
			eng := engine.NewEngine(st)
			var seq atomic.Int64
			session := func(num int, seed int64) *sesConcRun {
				c := &sesConcRun{h: h, clk: strictClock(hang), r: rand.New(rand.NewSource(seed)), num: num,
					eng: &recEngine{Engine: eng}, seq: &seq}
				c.ses = evaluate.NewSession(c.eng, types.ID("maho", false), types.PUBLIC)
				return c
			}
			if r.Intn(2) == 0 {
				c := session(4, 1)
				for _, e := range []*SesEv{{Op: "createdb", DB: concDbs[2]},
					{Op: "cschema", DB: concDbs[2], SC: concSchemas[1]}, {Op: "cschema", SC: concSchemas[1]}} {
					c.start()
					c.do(e)
					c.end()
				}
				c.clk.done()
			}
			var g sync.WaitGroup
			workers := 2 + r.Intn(3)
			for w := 0; w < workers; w++ {
				g.Add(1)
				c := session(w+1, r.Int63())
				go func() {
					defer g.Done()
					defer c.clk.done()
					for t := 0; t < 4; t++ {
						c.transaction()
						pause(c.r)
					}
				}()
			}
			g.Wait()
			c := session(4, 1)
			c.start()
			c.do(&SesEv{Op: "dbs"})
			c.do(&SesEv{Op: "begin"})
			c.look(true)
			c.do(&SesEv{Op: "commit"})
			c.end()
			c.clk.done()
			mu.Lock()
			delete(hists, h)
			tw.line(h)
			mu.Unlock()
		}()
	}
	wg.Wait()
	tw.close()
}

func strictClock(onHang func()) *clock {
	c := newClock(onHang)
	c.strict = true
	return c
}
