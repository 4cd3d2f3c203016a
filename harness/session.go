package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// DeclType is a data type as declared: size is -1 when none is written.
type DeclType struct {
	Name string `json:"name"`
	Size int    `json:"size"`
}

// KeyCol is a column of a key: a name and 0, or 1 for descending.
type KeyCol struct {
	Name Name
	Desc int
}

func (k KeyCol) MarshalJSON() ([]byte, error) { return json.Marshal([]any{k.Name, k.Desc}) }

func (k *KeyCol) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&k.Name, &k.Desc})
}

// Item is a part of CREATE TABLE: see spec/Session.tla.
type Item struct {
	Kind string // col, pk, uq, ck, fk
	Name Name
	Type DeclType
	Cons []string
	Key  []KeyCol
}

func (i Item) MarshalJSON() ([]byte, error) {
	switch i.Kind {
	case "col":
		return json.Marshal([]any{i.Kind, i.Name, i.Type, i.Cons})
	case "pk", "uq":
		return json.Marshal([]any{i.Kind, i.Key})
	case "fk":
		return json.Marshal([]any{i.Kind, i.Name})
	}
	return json.Marshal([]any{i.Kind})
}

func (i *Item) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	json.Unmarshal(raw[0], &i.Kind)
	switch i.Kind {
	case "col":
		return json.Unmarshal(b, &[]any{&i.Kind, &i.Name, &i.Type, &i.Cons})
	case "pk", "uq":
		return json.Unmarshal(b, &[]any{&i.Kind, &i.Key})
	case "fk":
		return json.Unmarshal(b, &[]any{&i.Kind, &i.Name})
	}
	return nil
}

// SesEv is a statement executed by a session, or an observation.
type SesEv struct {
	Ses   int      `json:"ses"`
	Op    string   `json:"op"`
	DB    Name     `json:"db"`
	SC    Name     `json:"sc"`
	TB    Name     `json:"tb"`
	Val   []int    `json:"val"`
	Opts  int      `json:"opts"`
	Ifx   int      `json:"ifx"`
	Items []Item   `json:"items"`
	Def   int      `json:"def"` // of the items, from one
	Key   []KeyCol `json:"key"`
	Kind  string   `json:"kind"`
	Sweep int      `json:"sweep"`
	Fired int      `json:"fired"`
	Res   Res      `json:"res"`
	// How the statement is written, which makes no difference.
	style int
	text  string
}

func (e *SesEv) line() map[string]any {
	m := map[string]any{"op": e.Op, "ses": e.Ses, "res": e.Res}
	part := func(n Name) Name {
		if n == nil {
			return Name{}
		}
		return n
	}
	switch e.Op {
	case "createdb":
		m["db"], m["opts"] = e.DB, e.Opts
	case "dropdb":
		m["db"], m["ifx"] = e.DB, e.Ifx
	case "schemas":
		m["db"] = e.DB
	case "setdb", "setsc":
		m["val"] = e.Val
	case "cschema", "dschema", "rschema":
		m["db"], m["sc"], m["ifx"] = part(e.DB), part(e.SC), e.Ifx
	case "ctable":
		m["db"], m["sc"], m["tb"], m["ifx"], m["items"] = part(e.DB), part(e.SC), part(e.TB), e.Ifx, e.Items
	case "cindex":
		m["db"], m["sc"], m["tb"], m["key"] = part(e.DB), part(e.SC), part(e.TB), e.Key
	case "rtable", "open":
		m["db"], m["sc"], m["tb"] = part(e.DB), part(e.SC), part(e.TB)
	}
	if e.Kind != "" {
		m["kind"] = e.Kind
	}
	if e.Fired == 1 {
		m["fired"] = 1
	}
	if e.text != "" {
		m["text"] = e.text
	}
	return m
}

// sqlName writes a name as SQL.
func sqlName(n Name) string {
	s := n.text()
	if n[0] == 0 {
		return s
	}
	if !strings.Contains(s, `"`) {
		return `"` + s + `"`
	} else if !strings.Contains(s, "`") {
		return "`" + s + "`"
	}
	return "[" + s + "]"
}

func sqlDotted(ns ...Name) string {
	ss := []string{}
	for _, n := range ns {
		if len(n) > 0 {
			ss = append(ss, sqlName(n))
		}
	}
	return strings.Join(ss, ".")
}

func sqlKey(key []KeyCol, style int) string {
	ss := []string{}
	for i, k := range key {
		s := sqlName(k.Name)
		if k.Desc == 1 {
			s += " desc"
		} else if (style+i)%2 == 0 {
			s += " asc"
		}
		ss = append(ss, s)
	}
	return "(" + strings.Join(ss, ", ") + ")"
}

func (i *Item) sql(style int) string {
	switch i.Kind {
	case "pk":
		if style%3 == 1 {
			return "constraint pk_name primary key " + sqlKey(i.Key, style)
		}
		return "primary key " + sqlKey(i.Key, style)
	case "uq":
		return "unique " + sqlKey(i.Key, style)
	case "ck":
		return "check (1 < 2)"
	case "fk":
		return "foreign key (" + sqlName(i.Name) + ") references other (x)"
	}
	s := sqlName(i.Name) + " " + i.Type.Name
	if i.Type.Name == "double" && style%2 == 0 {
		s += " precision"
	}
	if i.Type.Size >= 0 {
		s += fmt.Sprintf("(%d)", i.Type.Size)
	}
	for j, c := range i.Cons {
		s += map[string]string{"nn": " not null", "pk": " primary key", "uq": " unique",
			"df": fmt.Sprint(" default ", j), "ck": " check (1 = 1)", "fk": " references other (x)"}[c]
	}
	return s
}

var unsupportedKinds = map[string]string{
	"select": "select 1", "select-from": "select * from %s", "insert": "insert into %s values (1, 'a', null)",
	"update": "update %s set a = 1", "delete": "delete from %s", "values": "values (1, 2)",
	"copy": "copy %s from stdin;\n1\n", "show": "show tables", "show-var": "show database",
	"explain": "explain select 1", "alter": "alter table %s drop constraint a",
}

// text writes the statement as SQL.
func (e *SesEv) sql() string {
	ifx := func(s string) string {
		if e.Ifx == 1 {
			return s
		}
		return ""
	}
	tn := sqlDotted(e.DB, e.SC, e.TB)
	sn := sqlDotted(e.DB, e.SC)
	switch e.Op {
	case "begin":
		if e.style%2 == 1 {
			return "start transaction"
		}
		return "begin"
	case "commit", "rollback":
		return e.Op
	case "createdb":
		s := "create database " + sqlName(e.DB)
		for i := 0; i < e.Opts; i++ {
			if i == 0 {
				s += " with"
			}
			s += fmt.Sprintf(" opt%d = 'x'", i)
		}
		return s
	case "dropdb":
		return "drop database " + ifx("if exists ") + sqlName(e.DB)
	case "setdb", "setsc":
		b := []byte{}
		for _, x := range e.Val {
			b = append(b, byte(x))
		}
		v := "'" + string(b) + "'"
		if e.Op == "setdb" {
			return "set database " + []string{"to ", "= "}[e.style%2] + v
		}
		return "set schema " + []string{"to ", "= "}[e.style%2] + v
	case "setvar":
		return "set something to 1"
	case "cschema":
		return "create schema " + sn
	case "dschema":
		return "drop schema " + ifx("if exists ") + sn
	case "ctable":
		ss := []string{}
		for i := range e.Items {
			ss = append(ss, e.Items[i].sql(e.style+i))
		}
		return "create table " + ifx("if not exists ") + tn + " (" + strings.Join(ss, ", ") + ")"
	case "cindex":
		u := ""
		if e.style%3 == 0 {
			u = "unique "
		}
		return fmt.Sprintf("create %sindex idx%d on %s %s", u, e.style, tn, sqlKey(e.Key, e.style))
	case "unsupported":
		s := unsupportedKinds[e.Kind]
		if strings.Contains(s, "%s") {
			s = fmt.Sprintf(s, tn)
		}
		return s
	}
	panic("harness: " + e.Op)
}

// resolved parses a statement which names a table, resolves it, and returns the table.
var resolveKinds = []string{"insert", "update", "delete", "copy", "alter", "createtable", "createindex",
	"droptable", "dropindex", "session"}

func resolvedTable(ses *evaluate.Session, kind, tn string, db, sc, tb Name) ([]types.TableName, error) {
	if kind == "session" {
		n := types.TableName{Table: tb.id()}
		if len(sc) > 0 {
			n.Schema = sc.id()
		}
		if len(db) > 0 {
			n.Database = db.id()
		}
		return []types.TableName{ses.ResolveTable(n)}, nil
	}
	txt := map[string]string{
		"insert": "insert into " + tn + " (a) values (1)", "update": "update " + tn + " set a = 2",
		"delete": "delete from " + tn + " where a = 1", "copy": "copy " + tn + " (a) from stdin;\n",
		"alter":       "alter table " + tn + " drop constraint a",
		"createtable": "create table " + tn + " (a int)", "createindex": "create index i on " + tn + " (a)",
		"droptable": "drop table " + tn + ", " + tn, "dropindex": "drop index i on " + tn,
	}[kind]
	stmt, err := parseOne(txt)
	if err != nil {
		return nil, err
	}
	stmt.Resolve(ses)
	switch stmt := stmt.(type) {
	case *sql.InsertValues:
		return []types.TableName{stmt.Table}, nil
	case *sql.Update:
		return []types.TableName{stmt.Table}, nil
	case *sql.Delete:
		return []types.TableName{stmt.Table}, nil
	case *sql.Copy:
		return []types.TableName{stmt.Table}, nil
	case *sql.AlterTable:
		return []types.TableName{stmt.Table}, nil
	case *sql.CreateTable:
		return []types.TableName{stmt.Table}, nil
	case *sql.CreateIndex:
		return []types.TableName{stmt.Table}, nil
	case *sql.DropTable:
		return stmt.Tables, nil
	case *sql.DropIndex:
		return []types.TableName{stmt.Table}, nil
	}
	return nil, fmt.Errorf("unexpected statement: %T", stmt)
}

func parseOne(txt string) (sql.Stmt, error) {
	stmt, err := parser.NewParser(strings.NewReader(txt), "test").Parse()
	if err == nil && stmt == nil {
		err = fmt.Errorf("no statement")
	}
	return stmt, err
}

// recEngine is an engine which remembers its last transaction.
type recEngine struct {
	engine.Engine
	tx engine.Transaction
}

func (re *recEngine) Begin() engine.Transaction {
	re.tx = re.Engine.Begin()
	return re.tx
}

type sesExec struct {
	canceller
	clk   *clock
	st    storage.Store
	flt   *faults
	raw   engine.Engine // observes the store without faults
	eng   [5]*recEngine
	ses   [5]*evaluate.Session
	owner int // the session which has begun a transaction
	items [][]Item
	init  Res
}

func newSesExec(clk *clock) *sesExec {
	st, err := basic.NewStore("")
	if err != nil {
		fatal(err)
	}
	clk.strict = true
	x := &sesExec{clk: clk, st: st, flt: &faults{}}
	x.init = clk.guard(func() (Res, error) {
		if err := engine.Init(st); err != nil {
			return nil, err
		}
		x.raw = engine.NewEngine(st)
		for i := 1; i <= 4; i++ {
			x.eng[i] = &recEngine{Engine: engine.NewEngine(&faultStore{st, x.flt})}
			x.ses[i] = evaluate.NewSession(x.eng[i], types.ID("maho", false), types.PUBLIC)
		}
		return resOK, nil
	})
	return x
}

// with runs fn in the transaction of the session, or in one of its own.
func (x *sesExec) with(ses int, fn func(tx engine.Transaction) (Res, error)) (Res, error) {
	if x.owner == ses {
		return fn(x.eng[ses].tx)
	}
	tx := x.raw.Begin()
	defer tx.Rollback()
	return fn(tx)
}

func (x *sesExec) exec(e *SesEv) (Res, error) {
	stmt, err := parseOne(e.text)
	if err != nil {
		return nil, err
	}
	return resOK, x.ses[e.Ses].Evaluate(x.ctx(), stmt)
}

func (x *sesExec) do(e *SesEv) Res {
	if e.Items == nil && e.Def > 0 {
		e.Items = x.items[e.Def-1]
	}
	e.Res = x.clk.guard(func() (Res, error) {
		switch e.Op {
		case "dbs":
			ids, err := x.raw.ListDatabases()
			return names(ids), err
		case "schemas":
			return x.with(e.Ses, func(tx engine.Transaction) (Res, error) {
				ids, err := tx.ListSchemas(ctx, e.DB.id())
				return names(ids), err
			})
		case "open":
			return x.with(e.Ses, func(tx engine.Transaction) (Res, error) {
				return openTable(tx, types.TableName{Database: e.DB.id(), Schema: e.SC.id(), Table: e.TB.id()})
			})
		case "rtable":
			tns, err := resolvedTable(x.ses[e.Ses], e.Kind, sqlDotted(e.DB, e.SC, e.TB), e.DB, e.SC, e.TB)
			if err != nil {
				return nil, err
			}
			for _, tn := range tns {
				if tn != tns[0] {
					return Res{"differ"}, nil
				}
			}
			return Res{"name", tableNames(tns[0])}, nil
		case "rschema":
			var sn types.SchemaName
			switch e.Kind {
			case "create", "drop":
				stmt, err := parseOne(e.Kind + " schema " + sqlDotted(e.DB, e.SC))
				if err != nil {
					return nil, err
				}
				stmt.Resolve(x.ses[e.Ses])
				switch stmt := stmt.(type) {
				case *sql.CreateSchema:
					sn = stmt.Schema
				case *sql.DropSchema:
					sn = stmt.Schema
				}
			default:
				if len(e.DB) > 0 {
					sn.Database = e.DB.id()
				}
				sn.Schema = e.SC.id()
				sn = x.ses[e.Ses].ResolveSchema(sn)
			}
			return Res{"name", []Name{idName(sn.Database), idName(sn.Schema)}}, nil
		}
		e.text = e.sql()
		return x.exec(e)
	})
	if x.flt.disarm() {
		e.Fired = 1
	}
	if x.cancelled() {
		e.Fired = 1
	}
	if e.Op == "unsupported" && len(e.Res) == 1 && e.Res[0] == "panic" {
		e.Res = resRej
	}
	switch {
	case e.Op == "begin" && ok(e.Res):
		x.owner = e.Ses
	case (e.Op == "commit" || e.Op == "rollback") && x.owner == e.Ses:
		x.owner = 0
	case e.Op == "ctable" && ok(e.Res):
		e.Res = x.clk.guard(func() (Res, error) {
			tn := types.TableName{Table: e.TB.id()}
			if len(e.SC) > 0 {
				tn.Schema = e.SC.id()
			}
			if len(e.DB) > 0 {
				tn.Database = e.DB.id()
			}
			tn = x.ses[e.Ses].ResolveTable(tn)
			return x.with(e.Ses, func(tx engine.Transaction) (Res, error) {
				tbl, err := tx.OpenTable(ctx, tn)
				if err != nil {
					return Res{"not found"}, nil
				}
				return Res{"ok", int(tbl.TableId())}, nil
			})
		})
	}
	return e.Res
}

func openTable(tx engine.Transaction, tn types.TableName) (Res, error) {
	tbl, err := tx.OpenTable(ctx, tn)
	if err != nil {
		return nil, err
	}
	return Res{"ok", int(tbl.TableId()), tableNames(tbl.Name()), tableDefOf(tbl.Type())}, nil
}

// Names which can be written in SQL, whose identifiers differ when they are written differently.
var sqlNames = []Name{
	mkName(false, "a"), mkName(true, "A"), mkName(false, "A"), mkName(true, "a"), mkName(false, "ab"),
	mkName(true, "a b"), mkName(true, "a.b"), mkName(true, `"`), mkName(true, "select"), mkName(true, "é"),
	mkName(false, "É"), mkName(false, "_x"), mkName(false, "x$1"), mkName(true, strings.Repeat("n", 128)),
	mkName(false, strings.Repeat("N", 130)), mkName(true, strings.Repeat("n", 127)), mkName(true, "'"),
	mkName(false, "maho"), mkName(true, "MAHO"), mkName(false, "Public"), mkName(true, "PUBLIC"),
	mkName(false, "system"), mkName(false, "info"), mkName(false, "e"), mkName(false, "b"), mkName(false, "x"),
	mkName(true, "-- c"), mkName(true, "/*"), mkName(true, ";"), mkName(false, "tables"), mkName(false, "c1"),
}

var typeNames = []string{"binary", "varbinary", "blob", "bytea", "bytes", "char", "character", "varchar",
	"text", "bool", "boolean", "double", "real", "smallint", "int2", "int", "integer", "int4", "int8", "bigint"}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToUpper(s[i : i+1])[0]
			}
		}
		return string(b)
	}
	return s
}

func randDeclType(r *rand.Rand) DeclType {
	t := DeclType{Name: pick(r, typeNames), Size: -1}
	switch t.Name {
	case "binary", "varbinary", "blob", "bytea", "bytes", "char", "character", "varchar", "text":
		if r.Intn(2) == 0 {
			t.Size = pick(r, []int{0, 1, 2, 3, 10, 255, 4096, 65535, 1 << 20})
		}
	}
	return t
}

// distinctKeyNames tells whether the names made up for the keys without one are different: if not,
// the statement is refused, see known-findings.txt.
func distinctKeyNames(items []Item) bool {
	seen := map[types.Identifier]bool{}
	add := func(key []KeyCol, suffix string) bool {
		s := ""
		for _, k := range key {
			s += k.Name.id().String() + "_"
		}
		id := types.ID(s+suffix, false)
		dup := seen[id]
		seen[id] = true
		return !dup
	}
	for _, it := range items {
		good := true
		switch it.Kind {
		case "pk":
			good = add(it.Key, "primary")
		case "uq":
			good = add(it.Key, "unique")
		case "col":
			for _, c := range it.Cons {
				if c == "pk" {
					good = good && add([]KeyCol{{it.Name, 0}}, "primary")
				} else if c == "uq" {
					good = good && add([]KeyCol{{it.Name, 0}}, "unique")
				}
			}
		}
		if !good {
			return false
		}
	}
	return true
}

// randItems declares a table; the columns have different names.
func randItems(r *rand.Rand, max int) []Item {
	n := 1 + r.Intn(max)
	var items []Item
	var cols []Name
	seen := map[types.Identifier]bool{}
	for len(cols) < n {
		c := mkName(r.Intn(2) == 0, fmt.Sprint("c", len(cols)))
		if r.Intn(4) == 0 {
			c = pick(r, sqlNames)
		}
		if seen[c.id()] {
			continue
		}
		seen[c.id()] = true
		cols = append(cols, c)
	}
	pk := 0 // none; 1 with a column; 2 separately
	pk = r.Intn(3)
	pkCol := r.Intn(n)
	for i, c := range cols {
		it := Item{Kind: "col", Name: c, Type: randDeclType(r), Cons: []string{}}
		if r.Intn(3) == 0 {
			it.Cons = append(it.Cons, "nn")
		}
		if r.Intn(5) == 0 {
			it.Cons = append(it.Cons, "df")
		}
		if r.Intn(12) == 0 {
			it.Cons = append(it.Cons, pick(r, []string{"ck", "fk"}))
		}
		if pk == 1 && i == pkCol {
			it.Cons = append(it.Cons, "pk")
		} else if r.Intn(12) == 0 {
			it.Cons = append(it.Cons, "uq")
			if !distinctKeyNames(append(items[:len(items):len(items)], it)) {
				it.Cons = it.Cons[:len(it.Cons)-1]
			}
		}
		r.Shuffle(len(it.Cons), func(a, b int) { it.Cons[a], it.Cons[b] = it.Cons[b], it.Cons[a] })
		items = append(items, it)
	}
	randKey := func(max int) []KeyCol {
		var key []KeyCol
		for _, c := range r.Perm(n)[:1+r.Intn(min(n, max))] {
			key = append(key, KeyCol{cols[c], r.Intn(2)})
		}
		return key
	}
	insert := func(it Item) {
		if it.Kind != "col" && len(it.Key) > 0 && !distinctKeyNames(append(items[:len(items):len(items)], it)) {
			return
		}
		at := r.Intn(len(items) + 1)
		items = append(items[:at:at], append([]Item{it}, items[at:]...)...)
	}
	if pk == 2 {
		key := randKey(4)
		if r.Intn(12) == 0 {
			c := mkName(false, "no_such_column")
			at := r.Intn(len(key))
			key[at].Name = c
		} else if r.Intn(25) == 0 {
			key[0].Name = mkName(true, key[0].Name.text()+" ") // nearly one of the columns
		}
		insert(Item{Kind: "pk", Key: key})
	}
	if r.Intn(8) == 0 && n > 4 {
		insert(Item{Kind: "uq", Key: []KeyCol{{cols[n-1], 1}, {cols[0], 1}, {cols[1], 0}, {cols[2], 1}, {cols[3], 1}}})
	}
	if r.Intn(8) == 0 {
		insert(Item{Kind: "ck"})
	}
	if r.Intn(8) == 0 {
		insert(Item{Kind: "fk", Name: cols[0]})
	}
	return items
}

type sesProfile struct {
	begin, commit, rollback, createdb, dropdb, setdb, setsc, setvar, cschema, dschema, ctable, cindex,
	unsupported, rtable, rschema, dbs, schemas, open int
	fault int // of 10
}

var sesProfiles = map[string]sesProfile{
	"C24": {8, 6, 5, 6, 5, 1, 1, 2, 12, 9, 6, 2, 4, 0, 0, 4, 8, 6, 0},
	"C25": {2, 2, 1, 3, 1, 10, 10, 2, 9, 5, 14, 4, 1, 22, 10, 1, 5, 10, 0},
	"C26": {3, 5, 5, 7, 5, 1, 1, 2, 10, 8, 10, 3, 12, 0, 0, 5, 6, 6, 6},
	"C27": {2, 3, 1, 0, 0, 1, 2, 0, 4, 1, 24, 10, 0, 0, 0, 0, 0, 22, 0},
	"C28": {8, 6, 5, 6, 5, 0, 0, 2, 12, 9, 6, 2, 4, 0, 0, 4, 8, 6, 0},
}

// sesRandom records random executions of sessions.
func sesRandom(profile string, seed int64, n int, out string) {
	r := rand.New(rand.NewSource(seed))
	tw := newTrace(out)
	pr := sesProfiles[profile]
	var last *SesEv
	clk := newClock(func() {
		if last != nil {
			last.Res = Res{"hang"}
			tw.line(last.line())
		}
		tw.close()
	})
	defer clk.done()
	for tw.n < n {
		x := newSesExec(clk)
		tw.line(map[string]any{"op": "reset", "ses": 1, "res": x.init})
		if !ok(x.init) {
			break
		}
		pool := []Name{mkName(false, "maho"), mkName(false, "public")}
		for i := 0; i < 2+r.Intn(3); i++ {
			pool = append(pool, pick(r, sqlNames))
		}
		nm := func() Name { return pick(r, pool) }
		// A name in its context: mostly the usual one.
		dbn := func() Name {
			if r.Intn(3) > 0 {
				return pool[0]
			}
			return nm()
		}
		scn := func() Name {
			if r.Intn(3) == 0 {
				return pool[1]
			}
			return nm()
		}
		qualify := func(e *SesEv, table bool) {
			if table {
				e.TB = nm()
				switch r.Intn(5) {
				case 0, 1:
					e.SC = scn()
					e.DB = dbn()
				case 2:
					e.SC = scn()
				}
				return
			}
			e.SC = scn()
			if r.Intn(2) == 0 {
				e.DB = dbn()
			}
		}
		nses := 2 + r.Intn(3)
		calm := profile != "C26" && r.Intn(2) == 0 // nothing fails
		var past []*SesEv
		steps := 30 + r.Intn(80)
		if r.Intn(25) == 0 {
			steps += 800
		}
		for i := 0; i < steps && tw.n < n; i++ {
			e := &SesEv{Ses: 1 + r.Intn(nses), style: r.Intn(1000000)}
			if x.owner != 0 && r.Intn(3) > 0 {
				e.Ses = x.owner
			}
			ops := []string{"begin", "commit", "rollback", "createdb", "dropdb", "setdb", "setsc", "setvar",
				"cschema", "dschema", "ctable", "cindex", "unsupported", "rtable", "rschema", "dbs", "schemas", "open"}
			w := []int{pr.begin, pr.commit, pr.rollback, pr.createdb, pr.dropdb, pr.setdb, pr.setsc, pr.setvar,
				pr.cschema, pr.dschema, pr.ctable, pr.cindex, pr.unsupported, pr.rtable, pr.rschema, pr.dbs,
				pr.schemas, pr.open}
			if x.owner == e.Ses {
				// In a transaction most begins are refused, so that there is less need for them.
				w[0] = min(w[0], 1)
				w[3], w[4] = min(w[3], 2), min(w[4], 2)
			} else {
				w[1], w[2] = min(w[1], 1), min(w[2], 1)
			}
			e.Op = ops[weighted(r, w...)]
			if x.owner != 0 && x.owner != e.Ses || e.Op == "dbs" && x.owner != 0 {
				// Whatever needs a transaction has to wait.
				switch e.Op {
				case "commit", "rollback", "setdb", "setsc", "setvar", "rtable", "rschema":
				default:
					i--
					continue
				}
			}
			switch e.Op {
			case "createdb":
				e.DB = nm()
				if r.Intn(8) == 0 {
					e.Opts = 1 + r.Intn(2)
				}
			case "dropdb":
				e.DB, e.Ifx = nm(), r.Intn(2)
			case "setdb", "setsc":
				// What a value with other letters means is not specified.
				v := pick(r, []string{"maho", "public", "a", "b", "system", "info", "c1"})
				if r.Intn(2) == 0 {
					v = map[string]string{"setdb": "maho", "setsc": "public"}[e.Op]
				}
				e.Val = []int{}
				for _, c := range []byte(v) {
					e.Val = append(e.Val, int(c))
				}
			case "cschema", "dschema", "rschema":
				qualify(e, false)
				if e.Op == "dschema" {
					e.Ifx = r.Intn(2)
				}
				if e.Op == "rschema" {
					e.Kind = pick(r, []string{"create", "drop", "session"})
				}
			case "ctable":
				qualify(e, true)
				e.Ifx = min(1, r.Intn(3))
				if e.Ifx == 1 && r.Intn(2) == 0 {
					e.Ifx = 0
				}
				switch {
				case r.Intn(40) == 0:
					e.Items = randItems(r, 400)
				case r.Intn(8) == 0:
					e.Items = randItems(r, 40)
				default:
					e.Items = randItems(r, 6)
				}
			case "cindex":
				qualify(e, true)
				for _, c := range r.Perm(4)[:1+r.Intn(2)] {
					k := KeyCol{mkName(false, fmt.Sprint("c", c)), r.Intn(2)}
					if r.Intn(3) == 0 {
						k.Name = pick(r, sqlNames)
					}
					dup := false
					for _, o := range e.Key {
						dup = dup || o.Name.id() == k.Name.id()
					}
					if !dup {
						e.Key = append(e.Key, k)
					}
				}
				// Indexes on the tables of the system are not specified.
				if n := e.TB.text(); strings.EqualFold(n, "tables") {
					e.TB = mkName(false, "a")
				}
			case "unsupported":
				qualify(e, true)
				ks := []string{}
				for k := range unsupportedKinds {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				e.Kind = pick(r, ks)
			case "rtable":
				qualify(e, true)
				e.Kind = pick(r, resolveKinds)
			case "schemas":
				e.DB = dbn()
			case "open":
				e.DB, e.SC, e.TB = dbn(), scn(), nm()
				if r.Intn(10) == 0 {
					e.DB, e.SC = mkName(false, "system"), mkName(false, "info")
					e.TB = mkName(false, pick(r, []string{"sequences", "databases", "schemas", "tables", "columns"}))
				}
			}
			if len(past) > 0 && r.Intn(6) == 0 && e.Op != "begin" && e.Op != "commit" && e.Op != "rollback" {
				// The same again, maybe by another session.
				o := past[max(0, len(past)-12)+r.Intn(min(12, len(past)))]
				switch o.Op {
				case "createdb", "dropdb", "cschema", "dschema", "ctable", "schemas", "open":
					if x.owner == 0 || x.owner == e.Ses {
						f := *o
						f.Ses, f.style, f.Res, f.Fired, f.text = e.Ses, e.style, nil, 0, ""
						e = &f
					}
				}
			}
			past = append(past, e)
			last = e
			mine := x.owner == e.Ses
			if !calm && pr.fault > 0 && (x.owner == 0 || mine) && r.Intn(10) < pr.fault {
				switch e.Op {
				case "createdb", "dropdb", "cschema", "dschema", "ctable", "cindex", "unsupported":
					x.flt.arm(1+r.Intn(20), r.Intn(2) == 0)
				case "commit":
					x.flt.arm(1, false)
				}
			}
			switch e.Op {
			case "createdb", "dropdb", "cschema", "dschema", "ctable", "cindex", "unsupported", "commit":
				if !calm && (x.owner == 0 || mine) && r.Intn(6) == 0 {
					x.cancel(1 + r.Intn(8))
				}
			}
			x.do(e)
			tw.line(e.line())
			if mine && e.Fired == 1 && e.Op != "commit" {
				// What is left of it in the transaction is not specified.
				last = &SesEv{Ses: e.Ses, Op: "rollback"}
				x.do(last)
				tw.line(last.line())
			}
			last = nil
		}
	}
	tw.close()
}

// faults makes a call of the storage fail.
type faults struct {
	at    atomic.Int64 // fail at this call, counted down
	panic bool
	fired bool
}

type injected struct{}

func (injected) Error() string { return "injected fault" }

func (f *faults) arm(at int, panics bool) {
	f.panic, f.fired = panics, false
	f.at.Store(int64(at))
}

func (f *faults) disarm() bool {
	f.at.Store(0)
	fired := f.fired
	f.fired = false
	return fired
}

func (f *faults) fail() error {
	if f.at.Load() == 0 || f.at.Add(-1) > 0 {
		return nil
	}
	f.fired = true
	if f.panic {
		panic(injected{})
	}
	return injected{}
}
