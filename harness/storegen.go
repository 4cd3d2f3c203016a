package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strings"
)

// storeProfile says what a random execution of the storage layer is made of.
type storeProfile struct {
	tids      []int
	maxTables int
	maxCols   int
	maxKey    int
	names     bool    // unusual names
	types     []int   // types of columns
	wide      bool    // wide pools of values instead of narrow ones
	conv      float64 // probability of a value of another type
	bad       float64 // probability of a value to be refused
	variants  bool    // definitions which are almost the same
	invalid   bool    // invalid definitions
	bigRows   int     // rows in a large insert
	w         map[string]int
	steps     int
	observe   float64 // probability to look at all tables after a change
	noRollbck bool
}

var allTypes = []int{1, 2, 3, 4, 5}

func storeProfiles() map[string]storeProfile {
	base := func() storeProfile {
		return storeProfile{tids: []int{16, 17, 20, 256, 257, 65536, 16777216, 2147483647},
			maxTables: 3, maxCols: 4, maxKey: 3, types: allTypes, steps: 60, observe: 0.2,
			conv: 0.05, bad: 0.03, bigRows: 12,
			w: map[string]int{"begin": 10, "commit": 3, "rollback": 3, "create": 4, "drop": 1,
				"open": 2, "scan": 10, "insert": 20, "rows": 4, "next": 10, "cur": 5, "close": 3,
				"upd": 5, "del": 3, "updk": 10, "delk": 6, "nextstmt": 1}}
	}
	ps := map[string]storeProfile{}
	p := base()
	p.w["commit"], p.w["rollback"], p.observe = 8, 3, 0.5
	ps["C01"] = p
	p = base()
	p.w["commit"], p.w["rollback"], p.observe = 4, 8, 0.5
	p.bad = 0.1
	p.w["drop"] = 3
	ps["C02"] = p
	p = base()
	p.w["commit"], p.w["rollback"] = 1, 1
	p.w["insert"], p.w["updk"], p.w["delk"] = 30, 20, 10
	ps["C04"] = p
	p = base()
	p.bad, p.conv = 0.15, 0.1
	p.observe = 1
	p.w["insert"], p.w["updk"] = 30, 25
	ps["C05"] = p
	p = base()
	p.maxTables, p.wide, p.bigRows, p.bad, p.conv = 2, true, 25, 0, 0
	p.w["scan"], p.w["insert"], p.w["commit"], p.w["rollback"] = 60, 15, 1, 0
	p.steps = 100
	ps["C06"] = p
	p = base()
	p.maxTables = 2
	p.w["rows"], p.w["next"], p.w["close"], p.w["commit"], p.w["rollback"] = 10, 40, 3, 1, 1
	p.w["scan"], p.w["drop"] = 6, 2
	p.steps = 120
	ps["C07"] = p
	p = base()
	p.maxTables = 2
	p.w["rows"], p.w["next"], p.w["cur"], p.w["upd"], p.w["del"] = 8, 25, 20, 20, 8
	p.w["commit"], p.w["rollback"] = 1, 1
	p.observe = 0.6
	p.steps = 120
	ps["C08"] = p
	p = base()
	p.conv, p.bad, p.wide = 0.35, 0.1, true
	p.w["upd"], p.w["updk"], p.w["insert"], p.w["scan"] = 15, 30, 35, 20
	p.maxCols = 5
	ps["C09"] = p
	p = base()
	p.maxTables, p.observe, p.bigRows = 6, 0.5, 6
	p.w["create"], p.w["drop"], p.w["delk"] = 12, 6, 6
	ps["C10"] = p
	p = base()
	p.invalid, p.variants, p.observe = true, true, 0.4
	p.w = map[string]int{"begin": 10, "commit": 4, "rollback": 4, "create": 8, "drop": 3,
		"open": 4, "scan": 5, "insert": 10, "rows": 8, "next": 12, "cur": 10, "close": 6,
		"upd": 8, "del": 8, "updk": 5, "delk": 5}
	ps["C11"] = p
	p = base()
	p.names, p.variants, p.maxTables, p.maxCols, p.maxKey = true, true, 4, 5, 4
	p.w = map[string]int{"begin": 10, "commit": 5, "rollback": 2, "create": 15, "drop": 3,
		"open": 40, "scan": 3, "insert": 5}
	ps["C12"] = p
	p = base()
	p.types = []int{5, 5, 5, 4, 2}
	p.w["scribble"] = 25
	p.observe = 0.5
	ps["C13"] = p
	return ps
}

var unusualNames = []Name{
	mkName(false, "a"), mkName(false, "A"), mkName(true, "a"), mkName(true, "A"),
	mkName(false, "select"), mkName(true, "select"), mkName(true, "SELECT"), mkName(false, "Select"),
	mkName(false, "text"), mkName(false, "int"), mkName(true, "int"), mkName(false, "primary"),
	mkName(true, "primary"), mkName(true, "PRIMARY"), mkName(false, "bigint"), mkName(false, "path"),
	mkName(true, "table"), mkName(false, "count"), mkName(false, "tables"), mkName(true, "x y"),
	mkName(true, "a.b"), mkName(true, "\x00"), mkName(true, "\x01b"), mkName(true, "é"),
	mkName(true, "\xff\xfe"), mkName(true, strings.Repeat("n", 128)),
	mkName(true, strings.Repeat("n", 127)), mkName(true, strings.Repeat("n", 127)+"N"),
	mkName(false, "b"), mkName(false, "c"), mkName(false, "d"), mkName(true, "__rowid2"),
}

func (p *storeProfile) name(r *rand.Rand, n int) Name {
	if p.names {
		return pick(r, unusualNames)
	}
	return mkName(false, fmt.Sprintf("c%d", n))
}

func (p *storeProfile) colType(r *rand.Rand) []int {
	t := pick(r, p.types)
	nn := r.Intn(2)
	switch t {
	case 2:
		return []int{2, pick(r, []int{2, 4, 8}), 0, nn}
	case 4, 5:
		return []int{t, pick(r, []int{1, 2, 3, 8, 40, maxTLC}), r.Intn(2), nn}
	}
	return []int{t, 0, 0, nn}
}

func (p *storeProfile) def(r *rand.Rand, n int) *Def {
	d := &Def{DB: mkName(false, "db"), SC: mkName(false, "sc"), TB: mkName(false, fmt.Sprint("t", n))}
	if p.names {
		d.DB, d.SC, d.TB = pick(r, unusualNames), pick(r, unusualNames), pick(r, unusualNames)
	}
	ncols := 1 + r.Intn(p.maxCols)
	if r.Intn(12) == 0 {
		d.Cols = append(d.Cols, mkName(true, "__rowid"))
		d.Types = append(d.Types, []int{2, 8, 0, 1})
		d.Key = [][2]int{{0, 0}}
	}
	for i := 0; i < ncols; i++ {
		d.Cols = append(d.Cols, p.name(r, i))
		d.Types = append(d.Types, p.colType(r))
	}
	if d.Key == nil {
		perm := r.Perm(ncols)
		nk := min(1+r.Intn(p.maxKey), ncols)
		for _, c := range perm[:nk] {
			d.Key = append(d.Key, [2]int{c, r.Intn(2)})
		}
	}
	return d
}

// variant is a definition which differs in one place.
func (p *storeProfile) variant(r *rand.Rand, d *Def) *Def {
	b, _ := json.Marshal(d)
	var v Def
	json.Unmarshal(b, &v)
	i := r.Intn(len(v.Cols))
	switch r.Intn(9) {
	case 0:
		v.DB = p.other(r, v.DB)
	case 1:
		v.SC = p.other(r, v.SC)
	case 2:
		v.TB = p.other(r, v.TB)
	case 3:
		v.Cols[i] = p.other(r, v.Cols[i])
	case 4:
		v.Types[i][3] = 1 - v.Types[i][3]
	case 5:
		switch v.Types[i][0] {
		case 2:
			v.Types[i][1] = pick(r, []int{2, 4, 8})
		case 4, 5:
			v.Types[i][1] = pick(r, []int{1, 2, 3, 8, maxTLC})
		default:
			v.Types[i] = []int{2, 8, 0, v.Types[i][3]}
		}
	case 6:
		k := r.Intn(len(v.Key))
		v.Key[k][1] = 1 - v.Key[k][1]
	case 7:
		if len(v.Key) > 1 {
			if r.Intn(2) == 0 {
				v.Key[0], v.Key[1] = v.Key[1], v.Key[0]
			} else {
				v.Key = v.Key[:len(v.Key)-1]
			}
		} else {
			v.Key[0][0] = r.Intn(len(v.Cols))
		}
	case 8:
		if v.Types[i][0] == 4 || v.Types[i][0] == 5 {
			v.Types[i][2] = 1 - v.Types[i][2]
		} else {
			v.Cols = append(v.Cols, p.name(r, 90))
			v.Types = append(v.Types, p.colType(r))
		}
	}
	return &v
}

func (p *storeProfile) other(r *rand.Rand, n Name) Name {
	if p.names {
		return pick(r, unusualNames)
	}
	return mkName(r.Intn(2) == 0, n.text()+"x")
}

// broken is a definition which must be refused.
func (p *storeProfile) broken(r *rand.Rand, d *Def) *Def {
	b, _ := json.Marshal(d)
	var v Def
	json.Unmarshal(b, &v)
	switch r.Intn(5) {
	case 0:
		v.Cols = append(v.Cols, mkName(false, "extra"))
	case 1:
		v.Types = append(v.Types, []int{2, 8, 0, 0})
	case 2:
		v.NoKey = 1
	case 3:
		v.Key = append(v.Key, [2]int{len(v.Cols) + r.Intn(3), 0})
	case 4:
		i := r.Intn(len(v.Cols))
		v.Cols[i] = mkName(true, "__rowid")
	}
	return &v
}

var (
	narrowInts   = []int64{0, 1, 2, -1, 3}
	wideInts     = []int64{0, 1, 2, -1, -2, 127, 128, 255, 256, -128, -129, -256, 32767, -32768, 65535, 65536}
	wideInts4    = []int64{1<<31 - 1, -1 << 31, 1 << 24, -1 << 24, 1000000}
	wideInts8    = []int64{math.MaxInt64, math.MinInt64, 1 << 32, -1 << 32, 1 << 53, 1<<53 + 1, 1 << 62}
	narrowFloats = []float64{0, 1, 2, -1, 0.5}
	wideFloats   = []float64{0, 1, -1, 0.5, -0.5, 1.5, 2.25, -2.75, 1e6, 123456.75, 4294967296.5, math.Inf(1), math.Inf(-1), math.NaN(),
		math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 9007199254740993, 1e-5}
	narrowStrs = []string{"", "a", "b", "ab", "aa"}
	wideStrs   = []string{"", "a", "b", "ab", "aa", "A", "\x00", "\x00\x00", "\x01", "\x01\x00", "\x02", "a\x00", "a\x00b", "a\x01", "a\xff", "\xff", "\xff\xff", "é", "abc"}
	textForms  = []string{"12", " 12", "-3\n", "0.5", " 1 ", "true", "f", "on", "1e3", "x", "", "12x", "+7", "99999", "3000000000", "9223372036854775808", "-9223372036854775808", "007", "1.5", "\t\n2", "no"}
)

func (p *storeProfile) plain(r *rand.Rand, ct []int) Val {
	switch ct[0] {
	case 1:
		return Val{1, r.Intn(2)}
	case 2:
		if !p.wide || r.Intn(3) == 0 {
			return intVal(pick(r, narrowInts))
		}
		pool := wideInts[:14]
		if ct[1] >= 4 && r.Intn(2) == 0 {
			pool = wideInts4
		}
		if ct[1] == 8 && r.Intn(2) == 0 {
			pool = wideInts8
		}
		return intVal(pick(r, pool))
	case 3:
		if p.wide && r.Intn(3) > 0 {
			return floatVal(pick(r, wideFloats))
		}
		return floatVal(pick(r, narrowFloats))
	}
	pool := narrowStrs
	if p.wide {
		pool = wideStrs
	}
	s := pick(r, pool)
	if p.wide && r.Intn(4) == 0 {
		s += pick(r, pool)
	}
	if len(s) > ct[1] {
		s = s[:ct[1]]
	}
	return bytesInts(ct[0], []byte(s))
}

// val is a value for a column: it might have to be converted or be refused.
func (p *storeProfile) val(r *rand.Rand, ct []int) Val {
	f := r.Float64()
	if f < p.bad {
		switch r.Intn(4) {
		case 0:
			return Val{0}
		case 1:
			if (ct[0] == 4 || ct[0] == 5) && ct[1] < 50 {
				return bytesInts(ct[0], []byte(strings.Repeat("z", ct[1]+r.Intn(2))))
			} else if ct[0] == 2 && ct[1] < 8 {
				x := int64(1) << (8*ct[1] - 1)
				return intVal(pick(r, []int64{x, -x - 1, x - 1, -x}))
			}
		case 2:
			return Val{1, 1}
		}
		return bytesInts(4, []byte(pick(r, textForms)))
	}
	if f < p.bad+p.conv {
		switch r.Intn(4) {
		case 0:
			return intVal(pick(r, append(append([]int64{}, wideInts...), wideInts4...)))
		case 1:
			return floatVal(pick(r, []float64{0, 1, -1, 0.5, 1.5, -2.75, 100, 123456.75, 40000, 3e9}))
		case 2:
			return bytesInts(4, []byte(pick(r, textForms)))
		case 3:
			return bytesInts(5, []byte(pick(r, append(textForms, "é", "\xff", "\xc3", "\xed\xa0\x80"))))
		}
	}
	if ct[3] == 0 && r.Intn(6) == 0 {
		return Val{0}
	}
	return p.plain(r, ct)
}

type genCursor struct {
	tid  int
	open bool
	pos  int
	eof  bool
}

type storeGen struct {
	brief  bool // transactions
	r      *rand.Rand
	p      storeProfile
	x      *storeExec
	emit   func(e *SEv)
	defs   []*Def
	kinds  []int // for each definition: 0 valid, 1 broken
	cur    map[int]int
	com    map[int]int
	recent map[int][][]Val
	cs     map[int]*genCursor
	rs     map[int]int // tid
	active bool
	prev   bool
	nextC  int
	nextR  int
}

// change runs an event, records it, and returns its result.
func (g *storeGen) run(e *SEv) Res {
	if g.r.Intn(2) == 0 {
		e.Keep = 1
	}
	e.Res = Res{"hang"}
	onHang := g.x.clk.onHang
	g.x.clk.onHang = func() { g.emit(e); onHang() }
	switch e.Op {
	case "create", "drop", "insert", "rows", "upd", "del", "updk", "delk":
		if g.r.Intn(8) == 0 {
			g.x.cancel(1 + g.r.Intn(4))
		}
	}
	e.Res = g.x.do(e)
	g.x.clk.onHang = onHang
	g.emit(e)
	return e.Res
}

func ok(r Res) bool { return r[0] != "rej" }

func (g *storeGen) scanAll(tid int) {
	def := g.cur[tid]
	res := g.run(&SEv{Op: "scan", Tid: tid, Def: def, Cols: []int{-1}})
	if res[0] == "rows" {
		g.recent[tid] = res[1].([]Val2)
	}
}

func (g *storeGen) observeAll() {
	for _, tid := range g.p.tids {
		if _, ok := g.cur[tid]; ok {
			g.scanAll(tid)
		}
	}
}

func (g *storeGen) tid() (int, int, bool) {
	var ts []int
	for _, t := range g.p.tids {
		if _, ok := g.cur[t]; ok {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return 0, 0, false
	}
	t := pick(g.r, ts)
	return t, g.cur[t], true
}

func (g *storeGen) row(d *Def) []Val {
	n := len(d.Types)
	if g.r.Intn(30) == 0 {
		n = g.r.Intn(n + 1) // short
	}
	var row []Val
	for i := 0; i < n; i++ {
		row = append(row, g.p.val(g.r, d.Types[i]))
	}
	if g.p.bad > 0 && g.r.Intn(40) == 0 && n == len(d.Types) {
		row = append(row, Val{0}) // long
	}
	if row == nil {
		row = []Val{}
	}
	return row
}

// bound is a row whose key columns have the types of the columns.
func (g *storeGen) bound(d *Def, tid int) []Val {
	if rc := g.recent[tid]; len(rc) > 0 && g.r.Intn(3) > 0 {
		row := append([]Val{}, pick(g.r, rc)...)
		if len(row) == len(d.Types) {
			if g.r.Intn(3) == 0 {
				c := pick(g.r, d.Key)[0]
				row[c] = g.p.plain(g.r, d.Types[c])
			}
			return row
		}
	}
	var row []Val
	for _, ct := range d.Types {
		if g.r.Intn(8) == 0 {
			row = append(row, Val{0})
		} else {
			row = append(row, g.p.plain(g.r, ct))
		}
	}
	return row
}

func (g *storeGen) selection(e *SEv, d *Def) {
	r := g.r
	if r.Intn(3) == 0 {
		e.Min = g.bound(d, e.Tid)
	}
	if r.Intn(3) == 0 {
		e.Max = g.bound(d, e.Tid)
	}
	e.Cols = []int{-1}
	if r.Intn(3) == 0 {
		e.Cols = []int{}
		for i := r.Intn(len(d.Types) + 1); i >= 0; i-- {
			e.Cols = append(e.Cols, r.Intn(len(d.Types)))
		}
	}
	if r.Intn(4) == 0 {
		c := r.Intn(len(d.Types))
		v := g.p.plain(r, d.Types[c])
		if v[0] == 3 && v[1] == -3 {
			v = floatVal(1)
		}
		b, _ := json.Marshal([]any{c, r.Intn(4), v})
		json.Unmarshal(b, &e.Pred)
	}
}

// assignment picks columns to change and their values.
func (g *storeGen) assignment(e *SEv, d *Def) {
	perm := g.r.Perm(len(d.Types))
	n := 1 + g.r.Intn(len(d.Types))
	if g.r.Intn(2) == 0 {
		n = 1
	}
	e.Cols = append([]int{}, perm[:n]...)
	e.Vals = []Val{}
	for _, c := range e.Cols {
		e.Vals = append(e.Vals, g.p.val(g.r, d.Types[c]))
	}
}

func copyMap(m map[int]int) map[int]int {
	c := map[int]int{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (g *storeGen) completed() {
	g.active, g.prev = false, true
	g.cs, g.rs, g.recent = map[int]*genCursor{}, map[int]int{}, map[int][][]Val{}
}

func (g *storeGen) closeAll() {
	for c := 1; c < g.nextC; c++ {
		if cu, ok := g.cs[c]; ok && cu.open {
			g.run(&SEv{Op: "close", C: c})
			cu.open = false
		}
	}
}

func (g *storeGen) step() {
	r := g.r
	if !g.active {
		if g.prev && r.Intn(12) == 0 && g.p.w["upd"] > 0 {
			g.run(&SEv{Op: pick(r, []string{"commit", "rollback"})})
			return
		}
		g.run(&SEv{Op: "begin"})
		g.active = true
		g.cur = copyMap(g.com)
		if r.Float64() < g.p.observe+0.2 {
			g.observeAll()
		}
		return
	}
	ops := []string{"begin", "commit", "rollback", "create", "drop", "open", "scan", "insert", "rows", "next", "cur", "close", "upd", "del", "updk", "delk", "nextstmt", "scribble"}
	ws := make([]int, len(ops))
	for i, op := range ops {
		ws[i] = g.p.w[op]
	}
	ws[0] = 0
	if g.brief {
		ws[1] = 40
		if g.p.w["drop"] > 0 {
			ws[4] += 4
		}
	}
	if len(g.cur) == 0 {
		ws[3] = 100
	}
	if len(g.cur) >= g.p.maxTables {
		ws[3] = min(ws[3], 1)
	}
	op := ops[weighted(r, ws...)]
	e := &SEv{Op: op}
	tid, def, have := g.tid()
	e.Tid, e.Def = tid, def
	var d *Def
	if have {
		d = g.defs[def-1]
	}
	changed := false
	switch op {
	case "commit", "rollback":
		if !g.p.invalid || r.Intn(3) > 0 {
			g.closeAll()
		}
		if g.p.observe > 0.3 {
			g.observeAll()
		}
		if ok(g.run(e)) {
			if op == "commit" {
				g.com = copyMap(g.cur)
			}
			g.completed()
		}
		return
	case "create":
		e.Tid = pick(r, g.p.tids)
		if g.p.invalid && r.Intn(6) == 0 {
			e.Tid = r.Intn(16)
		}
		if _, ok := g.cur[e.Tid]; ok && !g.p.invalid && r.Intn(4) > 0 {
			return
		}
		e.Def = 1 + r.Intn(len(g.defs))
		if g.kinds[e.Def-1] == 1 && r.Intn(3) > 0 {
			return
		}
		if ok(g.run(e)) {
			g.cur[e.Tid] = e.Def
			delete(g.recent, e.Tid)
		}
		changed = true
	case "drop":
		if !have || g.p.invalid && r.Intn(3) == 0 {
			e.Tid = pick(r, g.p.tids)
		}
		if ok(g.run(e)) {
			delete(g.cur, e.Tid)
			delete(g.recent, e.Tid)
			for k, t := range g.rs {
				if t == e.Tid {
					delete(g.rs, k)
				}
			}
			for _, c := range g.cs {
				if c.tid == e.Tid {
					c.tid = 0 // may not be used to change rows
				}
			}
		}
		changed = true
	case "open":
		if !have || r.Intn(5) == 0 {
			e.Tid = pick(r, g.p.tids)
			e.Def = 1 + r.Intn(len(g.defs))
		} else if g.p.variants && r.Intn(2) == 0 {
			e.Def = 1 + r.Intn(len(g.defs))
		}
		g.run(e)
	case "scan":
		if !have {
			return
		}
		if r.Intn(4) == 0 {
			g.scanAll(tid)
			return
		}
		g.selection(e, d)
		g.run(e)
	case "insert":
		if !have {
			return
		}
		n := 1
		switch r.Intn(4) {
		case 0:
			n = r.Intn(4)
		case 1:
			n = 1 + r.Intn(g.p.bigRows)
		}
		e.Rows = []Val2{}
		for i := 0; i < n; i++ {
			e.Rows = append(e.Rows, g.row(d))
		}
		g.run(e)
		changed = true
	case "rows":
		if !have || len(g.cs) > 6 {
			return
		}
		e.C = g.nextC
		g.nextC++
		g.selection(e, d)
		if r.Intn(2) == 0 {
			e.Min, e.Max = nil, nil
		}
		if ok(g.run(e)) {
			g.cs[e.C] = &genCursor{tid: tid, open: true}
		}
	case "next", "cur", "close":
		var ids []int
		for c := 1; c < g.nextC; c++ {
			if cu, ok := g.cs[c]; ok {
				if cu.open || g.p.invalid && r.Intn(3) == 0 {
					ids = append(ids, c)
				}
			}
		}
		if len(ids) == 0 {
			return
		}
		e.C = pick(r, ids)
		cu := g.cs[e.C]
		if op == "cur" {
			if cu.eof || cu.tid == 0 || cu.pos == 0 && !g.p.invalid {
				return
			}
			e.R = g.nextR
			g.nextR++
		}
		res := g.run(e)
		if !ok(res) {
			return
		}
		switch op {
		case "next":
			if res[0] == "row" {
				cu.pos++
			} else {
				cu.eof = true
			}
		case "close":
			cu.open = false
			if !g.p.invalid {
				delete(g.cs, e.C)
			}
		case "cur":
			g.rs[e.R] = cu.tid
		}
	case "upd", "del":
		var ids []int
		for k := 1; k < g.nextR; k++ {
			if _, ok := g.rs[k]; ok {
				ids = append(ids, k)
			}
		}
		if len(ids) == 0 {
			return
		}
		if r.Intn(3) > 0 {
			ids = ids[len(ids)-1:]
		}
		e.R = pick(r, ids)
		tid := g.rs[e.R]
		if op == "upd" {
			g.assignment(e, g.defs[g.cur[tid]-1])
		}
		g.run(e)
		changed = true
		if r.Intn(3) > 0 {
			delete(g.rs, e.R)
		}
	case "updk", "delk":
		if !have {
			return
		}
		if rc := g.recent[tid]; len(rc) > 0 && r.Intn(5) > 0 {
			e.Row = pick(r, rc)
		} else {
			e.Row = g.bound(d, tid)
		}
		if op == "updk" {
			g.assignment(e, d)
		}
		g.run(e)
		changed = true
	default:
		g.run(e)
		changed = op == "scribble"
	}
	if changed && r.Float64() < g.p.observe {
		g.observeAll()
	}
}

// storeRandom records random executions until there are n events.
func storeRandom(profile string, seed int64, n int, out string) {
	p, ok := storeProfiles()[profile]
	if !ok {
		fatal("no profile", profile)
	}
	tw := newTrace(out)
	clk := newClock(func() { tw.close() })
	r := rand.New(rand.NewSource(seed))
	for tw.n < n {
		p := p
		if r.Intn(12) == 0 {
			// Tables of many columns.
			p.maxCols, p.maxKey, p.steps, p.bigRows = pick(r, []int{20, 20, 140, 270}), 6, 20, 3
			if p.names {
				p.steps, p.maxCols = 8, pick(r, []int{20, 40, 140})
			}
		}
		if p.maxCols < 10 && r.Intn(40) == 0 {
			// Many transactions.
			p.steps, p.observe = 2500, 0.02
			w := map[string]int{}
			for op, k := range p.w {
				w[op] = k
			}
			w["begin"], w["commit"], w["rollback"] = 30, 20, 5
			p.w = w
		}
		g := &storeGen{r: r, p: p, cur: map[int]int{}, com: map[int]int{},
			recent: map[int][][]Val{}, cs: map[int]*genCursor{}, rs: map[int]int{},
			nextC: 1, nextR: 1, brief: r.Intn(4) == 0}
		for i := 0; i < 4; i++ {
			g.defs = append(g.defs, p.def(r, i))
			g.kinds = append(g.kinds, 0)
		}
		if p.variants {
			for i := 0; i < 4; i++ {
				g.defs = append(g.defs, p.variant(r, pick(r, g.defs)))
				g.kinds = append(g.kinds, 0)
			}
		}
		if p.invalid {
			for i := 0; i < 3; i++ {
				g.defs = append(g.defs, p.broken(r, g.defs[r.Intn(4)]))
				g.kinds = append(g.kinds, 1)
			}
		}
		g.x = newStoreExec(clk, g.defs)
		g.emit = func(e *SEv) { tw.line(e.line()) }
		g.emit(&SEv{Op: "reset", Defs: g.defs, Res: resOK})
		if p.maxCols < 10 && r.Intn(8) == 0 {
			g.large()
			continue
		}
		for i := 0; i < p.steps; i++ {
			g.step()
		}
	}
	tw.close()
}

// large is an execution with a table of many rows.
func (g *storeGen) large() {
	r := g.r
	g.run(&SEv{Op: "begin"})
	g.active, g.cur = true, copyMap(g.com)

	// The last definition, with a first key column of many values.
	def := 1 + r.Intn(4)
	d := g.defs[def-1]
	tids := append([]int{}, g.p.tids...)
	r.Shuffle(len(tids), func(i, j int) { tids[i], tids[j] = tids[j], tids[i] })
	tid := tids[0]
	col := -1
	for _, k := range d.Key {
		if t := d.Types[k[0]]; t[0] == 2 || (t[0] == 4 || t[0] == 5) && t[1] >= 8 {
			col = k[0]
		}
	}
	if col < 0 {
		return // already recorded: begin
	}
	num := 0
	n := pick(r, []int{33, 70, 135, 270})
	if r.Intn(6) == 0 {
		n = 550
	}
	huge := r.Intn(6) == 0
	if huge {
		n = pick(r, []int{1030, 1200, 2100})
	}
	perm := r.Perm(4 * n)
	row := func(k int) []Val {
		var row []Val
		for i, t := range d.Types {
			if i == col {
				if t[0] == 2 {
					row = append(row, intVal(int64(k-n)))
				} else {
					row = append(row, bytesInts(t[0], []byte(fmt.Sprintf("k%05d", k))))
				}
			} else {
				row = append(row, g.p.plain(r, t))
			}
		}
		return row
	}
	var rows [][]Val
	fresh := func() []Val {
		num++
		row := row(perm[num-1])
		rows = append(rows, row)
		return row
	}
	insert := func(m int) *SEv {
		e := &SEv{Op: "insert", Tid: tid, Def: def, Rows: []Val2{}}
		for i := 0; i < m && num < len(perm); i++ {
			e.Rows = append(e.Rows, fresh())
		}
		return e
	}
	scan := func() { g.run(&SEv{Op: "scan", Tid: tid, Def: def, Cols: []int{-1}}) }
	complete := func(op string) {
		g.closeAll()
		g.run(&SEv{Op: op})
		g.completed()
		g.run(&SEv{Op: "begin"})
		g.active = true
	}

	g.run(&SEv{Op: "create", Tid: tid, Def: def})
	if r.Intn(2) == 0 {
		// Another table, with a few rows.
		g.run(&SEv{Op: "create", Tid: tids[1], Def: def})
		g.run(&SEv{Op: "insert", Tid: tids[1], Def: def, Rows: []Val2{row(1), row(2), row(3)}})
	}
	for num < n {
		g.run(insert(1 + r.Intn(n)))
	}
	if r.Intn(2) == 0 {
		complete(pick(r, []string{"commit", "commit", "commit", "rollback"}))
		g.run(&SEv{Op: "open", Tid: tid, Def: def})
	}
	gone := false
	cursors := 2 + r.Intn(3)
	if huge {
		cursors = 1
	}
	for i := cursors; i > 0 && !gone; i-- {
		// A cursor, changes while it is at some row, and the rest of its rows.
		c := g.nextC
		g.nextC++
		e := &SEv{Op: "rows", C: c, Tid: tid, Def: def, Cols: []int{-1}}
		if r.Intn(3) == 0 {
			e.Min = row(r.Intn(n))
		}
		if r.Intn(3) == 0 {
			e.Max = row(n + r.Intn(3*n))
		}
		open := ok(g.run(e))
		if !open {
			break
		}
		g.cs[c] = &genCursor{tid: tid, open: true}
		more := true
		next := func(k int) {
			if k == 1 {
				more = g.run(&SEv{Op: "next", C: c})[0] == "row"
			} else if k > 1 {
				res := g.run(&SEv{Op: "fetch", C: c, N: k})
				more = len(res) == 3 && res[2] == false
			}
		}
		next(r.Intn(6))
		for j := 1 + r.Intn(5); j > 0; j-- {
			switch r.Intn(9) {
			case 8:
				// Many of them are changed.
				if huge || n > 140 && r.Intn(2) == 0 {
					continue
				}
				del := r.Intn(2) == 0
				for _, k := range r.Perm(len(rows))[:min(len(rows), 140)] {
					if del {
						g.run(&SEv{Op: "delk", Tid: tid, Def: def, Row: rows[k]})
						continue
					}
					e := &SEv{Op: "updk", Tid: tid, Def: def, Row: rows[k], Cols: []int{(col + r.Intn(2)) % len(d.Types)}}
					e.Vals = []Val{row(k)[e.Cols[0]]}
					g.run(e)
				}
			case 0:
				g.run(insert(1 + r.Intn(n/4)))
			case 1:
				e := insert(r.Intn(n / 4)) // the last row is refused
				e.Rows = append(e.Rows, pick(r, rows))
				g.run(e)
			case 2, 3:
				g.run(&SEv{Op: "delk", Tid: tid, Def: def, Row: pick(r, rows)})
			case 4, 5:
				e := &SEv{Op: "updk", Tid: tid, Def: def, Row: pick(r, rows), Cols: []int{col}}
				if r.Intn(2) == 0 && len(d.Types) > 1 {
					e.Cols = []int{(col + 1) % len(d.Types)}
				}
				v := fresh()
				e.Vals = []Val{v[e.Cols[0]]}
				g.run(e)
			case 6:
				if more {
					k := g.nextR
					g.nextR++
					next(1)
					if more && ok(g.run(&SEv{Op: "cur", C: c, R: k})) {
						if r.Intn(2) == 0 {
							g.run(&SEv{Op: "del", R: k})
						} else {
							v := fresh()
							g.run(&SEv{Op: "upd", R: k, Cols: []int{col}, Vals: []Val{v[col]}})
						}
					}
				}
			case 7:
				if r.Intn(2) == 0 {
					g.run(&SEv{Op: "drop", Tid: tid})
					gone = true
					g.run(&SEv{Op: "create", Tid: tid, Def: def})
					scan()
					j = 0
				}
			}
		}
		next(10 * n)
		if r.Intn(3) > 0 {
			scan()
		}
	}
	for c, cu := range g.cs {
		if cu.open {
			g.run(&SEv{Op: "close", C: c})
			cu.open = false
		}
	}
	if r.Intn(2) == 0 {
		g.run(&SEv{Op: "drop", Tid: tid})
		g.run(&SEv{Op: "create", Tid: tid, Def: def})
	}
	scan()
	complete(pick(r, []string{"commit", "rollback"}))
	g.run(&SEv{Op: "open", Tid: tid, Def: def})
	scan()
	g.run(&SEv{Op: "scan", Tid: tids[1], Def: def, Cols: []int{-1}})
	g.run(&SEv{Op: "rollback"})
	g.completed()
}
