package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// TDef is the definition of a table, as the specification (spec/Catalog.tla) writes it.
type TDef struct {
	Cols  []Name   `json:"cols"`
	Types [][]int  `json:"types"`
	Key   [][2]int `json:"key"`
}

// CEv is an event of the engine.
type CEv struct {
	Op   string `json:"op"`
	DB   Name   `json:"db"`
	SC   Name   `json:"sc"`
	TB   Name   `json:"tb"`
	Opts int    `json:"opts"`
	Ifx  int    `json:"ifx"`
	Def  int    `json:"def"` // from one
	D    *TDef  `json:"d"`
	Res  Res    `json:"res"`

	fired bool // a call of the storage failed
}

func (e *CEv) line() map[string]any {
	m := map[string]any{"op": e.Op, "res": e.Res}
	if e.fired {
		m["fired"] = 1
	}
	if e.DB != nil {
		m["db"] = e.DB
	}
	if e.SC != nil {
		m["sc"] = e.SC
	}
	if e.TB != nil {
		m["tb"] = e.TB
	}
	switch e.Op {
	case "createdb":
		m["opts"] = e.Opts
	case "dropdb", "dschema":
		m["ifx"] = e.Ifx
	case "ctable":
		m["d"] = e.D
	}
	return m
}

func tableDefArgs(d *TDef) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	a := (&Def{DB: Name{0}, SC: Name{0}, TB: Name{0}, Cols: d.Cols, Types: d.Types, Key: d.Key}).args()
	if len(d.Key) == 0 {
		a.key = nil
	}
	return a.cols, a.types, a.key
}

func tableDefOf(tt *engine.TableType) *TDef {
	d := &TDef{Cols: []Name{}, Types: [][]int{}, Key: [][2]int{}}
	for _, id := range tt.ColumnNames {
		d.Cols = append(d.Cols, idName(id))
	}
	for _, ct := range tt.ColumnTypes {
		d.Types = append(d.Types, toColType(ct))
	}
	for _, k := range tt.Key {
		r := 0
		if k.Reverse() {
			r = 1
		}
		d.Key = append(d.Key, [2]int{int(k.Column()), r})
	}
	return d
}

func tableNames(tn types.TableName) []Name {
	return []Name{idName(tn.Database), idName(tn.Schema), idName(tn.Table)}
}

type catalogExec struct {
	canceller
	clk  *clock
	defs []*TDef
	st   storage.Store
	flt  *faults
	eng  engine.Engine
	old  engine.Engine // another one on the same store
	tx   engine.Transaction
	init Res
	kept keeper
}

// keeper holds results to see whether they change later.
type keeper struct {
	now  []func() string
	then []string
}

func (k *keeper) keep(now func() string) {
	if len(k.now) == 12 {
		k.now, k.then = k.now[1:], k.then[1:]
	}
	k.now, k.then = append(k.now, now), append(k.then, now())
}

func (k *keeper) changed() bool {
	for i, now := range k.now {
		if now() != k.then[i] {
			return true
		}
	}
	return false
}

// newCatalogExec makes an initialized store; the fail-th call of the storage during a first attempt
// fails.
func newCatalogExec(clk *clock, fail int) *catalogExec {
	st, err := basic.NewStore("")
	if err != nil {
		fatal(err)
	}
	clk.strict = true
	x := &catalogExec{clk: clk, flt: &faults{}}
	x.st = &faultStore{st, x.flt}
	x.init = clk.guard(func() (Res, error) {
		if fail > 0 {
			x.flt.arm(fail, false)
			err := engine.Init(x.st)
			x.flt.disarm()
			if err == nil {
				fail = -1
			}
		}
		if fail >= 0 {
			if err := engine.Init(st); err != nil {
				return nil, err
			}
		}
		x.eng, x.old = engine.NewEngine(x.st), engine.NewEngine(x.st)
		return resOK, nil
	})
	return x
}

func names(ids []types.Identifier) Res {
	ns := []Name{}
	for _, id := range ids {
		ns = append(ns, idName(id))
	}
	return Res{"names", ns}
}

func (x *catalogExec) do(e *CEv) Res {
	e.Res = x.clk.guard(func() (Res, error) {
		sn := types.SchemaName{}
		tn := types.TableName{}
		var db types.Identifier
		if e.DB != nil {
			db = e.DB.id()
			sn.Database, tn.Database = db, db
		}
		if e.SC != nil {
			sn.Schema = e.SC.id()
			tn.Schema = sn.Schema
		}
		if e.TB != nil {
			tn.Table = e.TB.id()
		}
		switch e.Op {
		case "commit", "rollback", "cschema", "dschema", "schemas", "ctable", "open":
			if x.tx == nil {
				return resRej, nil // there has been no transaction
			}
		}
		switch e.Op {
		case "createdb":
			var opts storage.OptionsMap
			if e.Opts > 0 {
				opts = storage.OptionsMap{}
				for i := 0; i < e.Opts; i++ {
					opts[types.ID(fmt.Sprint("opt", i), false)] = "x"
				}
			}
			return resOK, x.eng.CreateDatabase(db, opts)
		case "dropdb":
			return resOK, x.eng.DropDatabase(db, e.Ifx == 1)
		case "dbs":
			ids, err := x.eng.ListDatabases()
			x.kept.keep(func() string { return fmt.Sprint(ids) })
			return names(ids), err
		case "reopen":
			x.eng = engine.NewEngine(x.st)
			return resOK, nil
		case "other":
			x.eng, x.old = x.old, x.eng
			return resOK, nil
		case "begin":
			x.tx = x.eng.Begin()
			return resOK, nil
		case "commit":
			return resOK, x.tx.Commit(x.ctx())
		case "rollback":
			return resOK, x.tx.Rollback()
		case "cschema":
			return resOK, x.tx.CreateSchema(x.ctx(), sn)
		case "dschema":
			return resOK, x.tx.DropSchema(x.ctx(), sn, e.Ifx == 1)
		case "schemas":
			ids, err := x.tx.ListSchemas(x.ctx(), db)
			x.kept.keep(func() string { return fmt.Sprint(ids) })
			return names(ids), err
		case "ctable":
			d := e.D
			if d == nil {
				d = x.defs[e.Def-1]
			}
			cols, cts, key := tableDefArgs(d)
			if err := x.tx.CreateTable(x.ctx(), tn, cols, cts, key); err != nil {
				return nil, err
			}
			e.fired = x.flt.disarm()
			e.fired = x.cancelled() || e.fired
			tbl, err := x.tx.OpenTable(x.ctx(), tn)
			if err != nil {
				return Res{"not found"}, nil
			}
			return Res{"ok", int(tbl.TableId())}, nil
		case "open":
			tbl, err := x.tx.OpenTable(x.ctx(), tn)
			if err != nil {
				return nil, err
			}
			tt := tbl.Type()
			x.kept.keep(func() string { return fmt.Sprintf("%v", *tt) })
			return Res{"ok", int(tbl.TableId()), tableNames(tbl.Name()), tableDefOf(tbl.Type())}, nil
		}
		panic("harness: " + e.Op)
	})
	if x.kept.changed() {
		e.Res = Res{"an earlier result changed"}
	}
	return e.Res
}

type catState struct {
	Dbs     []Name              `json:"dbs"`
	Schemas [][2]Name           `json:"schemas"`
	Tables  [][]json.RawMessage `json:"tables"`
}

func sortedNames(r Res) Res {
	if len(r) != 2 || r[0] != "names" {
		return r
	}
	var ns []Name
	json.Unmarshal(encodeJSON(r[1]), &ns)
	ss := []string{}
	for _, n := range ns {
		ss = append(ss, string(encodeJSON(n)))
	}
	sort.Strings(ss)
	return Res{"names", ss}
}

// catalogReplay replays the paths of spec/CatalogMC.tla.
func catalogReplay(in, out string) {
	var defs []*TDef
	replay(in, out,
		func(b []byte) bool {
			var p struct {
				Defs []*TDef `json:"defs"`
			}
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err)
			}
			defs = p.Defs
			return true
		},
		func(rp *replayer, clk *clock, b []byte) {
			var p struct {
				Path []struct {
					E   CEv `json:"e"`
					Res Res `json:"res"`
				} `json:"path"`
				Act bool     `json:"act"`
				Cur catState `json:"cur"`
				Com catState `json:"com"`
			}
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err, string(b))
			}
			x := newCatalogExec(clk, 0)
			x.defs = defs
			if !ok(x.init) {
				rp.mismatch(b, 0, "init", resOK, x.init)
				return
			}
			ids := map[int]int{} // model id to real id
			for i := 16; i <= 19; i++ {
				ids[i] = i
			}
			tableIs := func(e *CEv, id int, cols []Name, res Res) bool {
				if len(res) != 4 || res[0] != "ok" || res[1].(int) != ids[id] {
					return false
				}
				if !sameJSON(res[2], []Name{idName(e.DB.id()), idName(e.SC.id()), idName(e.TB.id())}) {
					return false
				}
				if len(cols) == 0 {
					return true // a table of the system
				}
				for _, d := range defs {
					cs, ts, ks := tableDefArgs(d)
					want := tableDefOf(&engine.TableType{ColumnNames: cs, ColumnTypes: ts, Key: ks})
					if sameJSON(want.Cols, cols) {
						return sameJSON(want, res[3])
					}
				}
				return false
			}
			for i, s := range p.Path {
				e := s.E
				res := x.do(&e)
				rp.events.Add(1)
				good := false
				switch {
				case len(s.Res) == 2 && s.Res[0] == "ok": // ctable
					if len(res) == 2 && res[0] == "ok" {
						m, id := int(s.Res[1].(float64)), res[1].(int)
						good = id >= 512
						for k, v := range ids {
							if k >= m {
								delete(ids, k) // was rolled back
							} else if v >= id {
								good = false
							}
						}
						ids[m] = id
					}
				case s.Res[0] == "table":
					var cols []Name
					d := s.Res[2].(map[string]any)
					json.Unmarshal(encodeJSON(d["cols"]), &cols)
					good = tableIs(&e, int(s.Res[1].(float64)), cols, res)
				default:
					good = sameJSON(sortedNames(res), sortedNames(s.Res))
				}
				if !good {
					rp.mismatch(b, i, e.Op, s.Res, res)
					return
				}
			}
			// The catalog at the end, in the transaction, and once it was rolled back.
			check := func(what string, c catState) bool {
				if !x.txDo(rp, b, what, "", c, tableIs) {
					return false
				}
				return true
			}
			if p.Act {
				if !check("in the transaction", p.Cur) {
					return
				}
				if res := x.do(&CEv{Op: "rollback"}); !ok(res) {
					rp.mismatch(b, len(p.Path), "rollback", resOK, res)
					return
				}
			}
			if res := x.do(&CEv{Op: "dbs"}); !sameJSON(sortedNames(res), sortedNames(Res{"names", p.Com.Dbs})) {
				rp.mismatch(b, len(p.Path), "databases", p.Com.Dbs, res)
				return
			}
			x.do(&CEv{Op: "begin"})
			if !check("committed", p.Com) {
				return
			}
			if res := x.do(&CEv{Op: "rollback"}); !ok(res) {
				rp.mismatch(b, len(p.Path), "rollback", resOK, res)
			}
		})
}

// txDo compares the catalog seen by a transaction with what it must be.
func (x *catalogExec) txDo(rp *replayer, b []byte, what, _ string, c catState,
	tableIs func(e *CEv, id int, cols []Name, res Res) bool) bool {

	isDb := map[string]bool{}
	for _, db := range c.Dbs {
		isDb[string(encodeJSON(db))] = true
		want := []Name{}
		for _, s := range c.Schemas {
			if sameJSON(s[0], db) {
				want = append(want, s[1])
			}
		}
		res := x.do(&CEv{Op: "schemas", DB: db})
		if !sameJSON(sortedNames(res), sortedNames(Res{"names", want})) {
			rp.mismatch(b, -2, what+": schemas", want, res)
			return false
		}
	}
	for _, s := range c.Schemas {
		if isDb[string(encodeJSON(s[0]))] {
			continue
		}
		if res := x.do(&CEv{Op: "schemas", DB: s[0]}); !sameJSON(res, resRej) {
			rp.mismatch(b, -2, what+": schemas of a missing database", resRej, res)
			return false
		}
	}
	for _, t := range c.Tables {
		var n [3]Name
		var id int
		var cols []Name
		json.Unmarshal(t[0], &n)
		json.Unmarshal(t[1], &id)
		json.Unmarshal(t[2], &cols)
		e := &CEv{Op: "open", DB: n[0], SC: n[1], TB: n[2]}
		if res := x.do(e); !tableIs(e, id, cols, res) {
			rp.mismatch(b, -2, what+": table", t, res)
			return false
		}
	}
	return true
}

// Names whose identifiers differ from those of all others which are written differently and are
// not keywords.
var catalogNames = []Name{
	mkName(false, "a"), mkName(true, "a"), mkName(true, "A"), mkName(false, "A"),
	mkName(false, "ab"), mkName(true, "a b"), mkName(true, "a.b"), mkName(true, ""), mkName(true, "\x00"),
	mkName(true, "a\x00"), mkName(true, "a\x01"), mkName(true, "\xff"), mkName(true, "é"), mkName(false, "É"),
	mkName(true, strings.Repeat("n", 128)), mkName(true, strings.Repeat("n", 127)),
	mkName(true, strings.Repeat("n", 130)+"x"), mkName(false, strings.Repeat("N", 128)),
	mkName(false, "maho"), mkName(true, "MAHO"), mkName(false, "public"), mkName(true, "Public"),
	mkName(false, "system"), mkName(false, "info"), mkName(false, "tables"), mkName(true, "'"), mkName(true, "\""),
	mkName(true, "\xed\xa0\x80"), mkName(false, "b"), mkName(false, "c"),
}

func catalogName(r *rand.Rand) Name {
	if r.Intn(3) > 0 {
		return pick(r, catalogNames)
	}
	b := make([]byte, 1+r.Intn(6))
	for i := range b {
		if r.Intn(4) == 0 {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = "abAB_1 "[r.Intn(7)]
		}
	}
	return mkName(true, string(b))
}

func randTableDef(r *rand.Rand, max int) *TDef {
	d := &TDef{Cols: []Name{}, Types: [][]int{}, Key: [][2]int{}}
	n := 1 + r.Intn(max)
	p := storeProfile{types: allTypes}
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			d.Cols = append(d.Cols, mkName(r.Intn(2) == 0, fmt.Sprint("c", i)))
		} else {
			d.Cols = append(d.Cols, catalogName(r))
		}
		d.Types = append(d.Types, p.colType(r))
	}
	for _, c := range r.Perm(n)[:r.Intn(min(n, 4)+1)] {
		d.Key = append(d.Key, [2]int{c, r.Intn(2)})
	}
	return d
}

// catalogRandom records random executions of the engine.
func catalogRandom(profile string, seed int64, n int, out string) {
	r := rand.New(rand.NewSource(seed))
	tw := newTrace(out)
	var x *catalogExec
	clk := newClock(func() {
		tw.line(map[string]any{"op": "hang", "res": Res{"hang"}})
		tw.close()
	})
	defer clk.done()
	for tw.n < n {
		fail := 0
		if r.Intn(4) == 0 {
			fail = 1 + r.Intn(30)
		}
		x = newCatalogExec(clk, fail)
		tw.line(map[string]any{"op": "reset", "res": x.init})
		if !ok(x.init) {
			break
		}
		// A few names, so that most of them meet again.
		pool := []Name{mkName(false, "maho"), mkName(false, "public")}
		for i := 0; i < 2+r.Intn(3); i++ {
			pool = append(pool, catalogName(r))
		}
		nm := func() Name { return pick(r, pool) }
		dbn := func() Name {
			if profile != "C20" && r.Intn(2) == 0 {
				return pool[0]
			}
			return nm()
		}
		scn := func() Name {
			if r.Intn(4) == 0 {
				return pool[1]
			}
			return nm()
		}
		calm := r.Intn(2) == 0  // nothing fails
		brief := r.Intn(4) == 0 // transactions
		var past []*CEv
		act := false
		do := func(e *CEv) Res {
			x.do(e)
			e.fired = x.flt.disarm() || e.fired
			e.fired = x.cancelled() || e.fired
			tw.line(e.line())
			return e.Res
		}
		if r.Intn(8) == 0 {
			// Many databases, schemas or tables.
			k := pick(r, []int{33, 70, 135, 260})
			many := func(i int) Name { return mkName(true, fmt.Sprintf("n%d", (i*7919)%k)) }
			if profile == "C20" && r.Intn(2) == 0 {
				for i := 0; i < k; i++ {
					do(&CEv{Op: "createdb", DB: many(i)})
				}
				do(&CEv{Op: "dbs"})
			}
			do(&CEv{Op: "begin"})
			if profile == "C21" {
				k = min(k, 135)
				for i := 0; i < k; i++ {
					do(&CEv{Op: "ctable", DB: pool[0], SC: pool[1], TB: many(i), D: randTableDef(r, 2)})
				}
				for i := 0; i < k; i += 5 {
					do(&CEv{Op: "open", DB: pool[0], SC: pool[1], TB: many(i)})
				}
			} else {
				for i := 0; i < k; i++ {
					do(&CEv{Op: "cschema", DB: pool[0], SC: many(i)})
				}
				do(&CEv{Op: "schemas", DB: pool[0]})
			}
			do(&CEv{Op: pick(r, []string{"commit", "commit", "rollback"})})
			for i := 0; i < 4; i++ {
				pool = append(pool, many(r.Intn(k)))
			}
		}
		steps := 30 + r.Intn(60)
		if profile == "C21" {
			steps += 60
		}
		if r.Intn(25) == 0 {
			steps += 800
		}
		for i := 0; i < steps && tw.n < n; i++ {
			e := &CEv{}
			if !act {
				w := []int{8, 4, 6, 1, 20, 0, 0, 2, 0}
				if profile == "C20" {
					w = []int{20, 14, 16, 1, 16, 0, 0, 2, 0}
				}
				if x.tx != nil {
					w[5], w[6], w[8] = 1, 1, 2
				}
				switch weighted(r, w...) {
				case 0:
					e.Op, e.DB, e.Opts = "createdb", nm(), 0
					if r.Intn(8) == 0 {
						e.Opts = 1 + r.Intn(2)
					}
				case 1:
					e.Op, e.DB, e.Ifx = "dropdb", nm(), r.Intn(2)
				case 2:
					e.Op = "dbs"
				case 3:
					e.Op = "reopen"
				case 4:
					e.Op = "begin"
				case 5: // the transaction is over
					e.Op = "commit"
				case 6:
					e.Op = "rollback"
				case 7:
					e.Op = "other"
				case 8: // the transaction is over
					e.Op, e.DB, e.SC, e.TB = pick(r, []string{"cschema", "dschema", "schemas", "ctable", "open"}), dbn(), scn(), nm()
					if e.Op == "ctable" {
						e.D = randTableDef(r, 3)
					}
				}
			} else {
				w := []int{4, 3, 8, 6, 8, 8, 8}
				switch profile {
				case "C20":
					w = []int{4, 2, 14, 9, 12, 0, 0}
				case "C21":
					w = []int{2, 1, 5, 1, 2, 22, 22}
				}
				if brief {
					w[0] = 25
				}
				switch weighted(r, w...) {
				case 0:
					e.Op = "commit"
				case 1:
					e.Op = "rollback"
				case 2:
					e.Op, e.DB, e.SC = "cschema", dbn(), scn()
				case 3:
					e.Op, e.DB, e.SC, e.Ifx = "dschema", dbn(), scn(), r.Intn(2)
				case 4:
					e.Op, e.DB = "schemas", dbn()
				case 5:
					e.Op, e.DB, e.SC, e.TB = "ctable", dbn(), scn(), nm()
					switch {
					case r.Intn(40) == 0:
						e.D = randTableDef(r, 400)
					case r.Intn(10) == 0:
						e.D = randTableDef(r, 40)
					default:
						e.D = randTableDef(r, 6)
					}
				case 6:
					e.Op, e.DB, e.SC, e.TB = "open", dbn(), scn(), nm()
					if r.Intn(10) == 0 {
						e.DB, e.SC = mkName(false, "system"), mkName(false, "info")
						e.TB = mkName(false, pick(r, []string{"sequences", "databases", "schemas", "tables", "columns"}))
					}
				}
			}
			if len(past) > 0 && r.Intn(6) == 0 && e.Op != "commit" && e.Op != "rollback" && e.Op != "begin" {
				// The same again, as far as it can be.
				o := past[max(0, len(past)-12)+r.Intn(min(12, len(past)))]
				switch o.Op {
				case "createdb", "dropdb", "dbs":
					if !act {
						*e = CEv{Op: o.Op, DB: o.DB, Ifx: o.Ifx, Opts: o.Opts}
					}
				case "cschema", "dschema", "schemas", "ctable", "open":
					if act {
						*e = CEv{Op: o.Op, DB: o.DB, SC: o.SC, TB: o.TB, Ifx: o.Ifx, D: o.D}
					}
				}
			}
			past = append(past, e)
			if !calm && profile != "C21" && r.Intn(5) == 0 && e.Op != "begin" && e.Op != "rollback" && e.Op != "reopen" && e.Op != "other" {
				// A call of the storage fails.
				x.flt.arm(1+r.Intn(8), e.Op != "commit" && e.Op != "dbs" && r.Intn(2) == 0)
			}
			if !calm && r.Intn(6) == 0 && e.Op != "rollback" {
				x.cancel(1 + r.Intn(10))
			}
			do(e)
			if e.Op == "begin" {
				act = true
			} else if e.Op == "commit" || e.Op == "rollback" {
				act = false
			} else if act && e.fired {
				// What is left of it in the transaction is not specified.
				do(&CEv{Op: "rollback"})
				act = false
			}
		}
		if act {
			x.do(&CEv{Op: "rollback"})
		}
	}
	tw.close()
}

// catalogKeyword records what happens to names which are keywords that are not reserved: see
// known-findings.txt.
func catalogKeyword(profile string, out string) {
	tw := newTrace(out)
	clk := newClock(nil)
	defer clk.done()
	x := newCatalogExec(clk, 0)
	tw.line(map[string]any{"op": "reset", "res": x.init})
	do := func(e *CEv) {
		x.do(e)
		tw.line(e.line())
	}
	plain, quoted := mkName(false, "text"), mkName(true, "TEXT")
	maho, public := mkName(false, "maho"), mkName(false, "public")
	d := &TDef{Cols: []Name{plain}, Types: [][]int{{2, 8, 0, 1}}, Key: [][2]int{{0, 0}}}
	switch profile {
	case "C20":
		do(&CEv{Op: "createdb", DB: plain})
		do(&CEv{Op: "createdb", DB: quoted})
		do(&CEv{Op: "dbs"})
	case "C21":
		do(&CEv{Op: "begin"})
		do(&CEv{Op: "ctable", DB: maho, SC: public, TB: plain, D: d})
		do(&CEv{Op: "open", DB: maho, SC: public, TB: quoted})
	}
	tw.close()
}
