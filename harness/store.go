package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"math"
	"slices"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

var ctx = context.Background()

// Def is a table definition, as the specification (spec/Store.tla) writes it.
type Def struct {
	DB    Name     `json:"db"`
	SC    Name     `json:"sc"`
	TB    Name     `json:"tb"`
	Cols  []Name   `json:"cols"`
	Types [][]int  `json:"types"` // type, size, fixed, notnull
	Key   [][2]int `json:"key"`   // column, descending
	NoKey int      `json:"nokey"`
}

const maxTLC = math.MaxInt32

func fromColType(ct []int) types.ColumnType {
	t := map[int]types.ValueType{0: types.UnknownType, 1: types.BoolType, 2: types.Int64Type,
		3: types.Float64Type, 4: types.StringType, 5: types.BytesType}[ct[0]]
	sz := uint32(ct[1])
	if ct[1] == maxTLC {
		sz = types.MaxColumnSize
	}
	return types.ColumnType{Type: t, Size: sz, Fixed: ct[2] == 1, NotNull: ct[3] == 1}
}

func toColType(ct types.ColumnType) []int {
	r := []int{-1, 0, 0, 0}
	switch ct.Type {
	case types.UnknownType:
		r[0] = 0
	case types.BoolType:
		r[0] = 1
	case types.Int64Type:
		r[0] = 2
	case types.Float64Type:
		r[0] = 3
	case types.StringType:
		r[0] = 4
	case types.BytesType:
		r[0] = 5
	}
	if ct.Size == types.MaxColumnSize {
		r[1] = maxTLC
	} else {
		r[1] = int(ct.Size)
	}
	if ct.Fixed {
		r[2] = 1
	}
	if ct.NotNull {
		r[3] = 1
	}
	return r
}

type defArgs struct {
	tn    types.TableName
	cols  []types.Identifier
	types []types.ColumnType
	key   []types.ColumnKey
}

func (d *Def) args() defArgs {
	var a defArgs
	a.tn = types.TableName{Database: d.DB.id(), Schema: d.SC.id(), Table: d.TB.id()}
	for _, c := range d.Cols {
		a.cols = append(a.cols, c.id())
	}
	for _, ct := range d.Types {
		a.types = append(a.types, fromColType(ct))
	}
	if d.NoKey == 0 {
		a.key = []types.ColumnKey{}
		for _, k := range d.Key {
			a.key = append(a.key, types.MakeColumnKey(types.ColumnNum(k[0]), k[1] == 1))
		}
	}
	return a
}

// SEv is an event of the storage layer.
type SEv struct {
	Op   string            `json:"op"`
	Tid  int               `json:"tid"`
	Def  int               `json:"def,omitempty"` // from one
	C    int               `json:"c"`
	R    int               `json:"r"`
	N    int               `json:"n"`
	Cols []int             `json:"cols"`
	Min  []Val             `json:"min"`
	Max  []Val             `json:"max"`
	Pred []json.RawMessage `json:"pred"`
	Rows []Val2            `json:"rows"`
	Vals []Val             `json:"vals"`
	Row  []Val             `json:"row"`
	Keep int               `json:"keep"` // reuse an already open table
	Defs []*Def            `json:"defs"`
	Res  Res               `json:"res"`

	ended bool // the context of the call ended
}

type Val2 = []Val

// line is the event with only the fields its operation has.
func (e *SEv) line() map[string]any {
	m := map[string]any{"op": e.Op, "res": e.Res}
	if e.ended {
		m["fired"] = 1
	}
	nn := func(v []Val) []Val {
		if v == nil {
			return []Val{}
		}
		return v
	}
	switch e.Op {
	case "reset":
		m["defs"] = e.Defs
	case "create", "open", "drop", "scan", "insert", "rows", "updk", "delk":
		m["tid"] = e.Tid
		if e.Op != "drop" {
			m["def"] = e.Def
		}
	}
	switch e.Op {
	case "rows":
		m["c"] = e.C
		fallthrough
	case "scan":
		m["cols"] = e.Cols
		m["min"] = nn(e.Min)
		m["max"] = nn(e.Max)
		if e.Pred == nil {
			m["pred"] = []int{}
		} else {
			m["pred"] = e.Pred
		}
	case "insert":
		rows := e.Rows
		if rows == nil {
			rows = []Val2{}
		}
		m["rows"] = rows
	case "next", "close":
		m["c"] = e.C
	case "fetch":
		m["c"] = e.C
		m["n"] = e.N
	case "cur":
		m["c"] = e.C
		m["r"] = e.R
	case "upd":
		m["r"] = e.R
		m["cols"] = e.Cols
		m["vals"] = e.Vals
	case "del":
		m["r"] = e.R
	case "updk":
		m["cols"] = e.Cols
		m["vals"] = e.Vals
		m["row"] = e.Row
	case "delk":
		m["row"] = e.Row
	}
	return m
}

type storeExec struct {
	canceller
	clk     *clock
	defs    []*Def
	args    []defArgs
	st      storage.Store
	tx      storage.Transaction
	prev    storage.Transaction
	tables  map[int]storage.Table // open tables by tid
	tblDef  map[int]int
	cursors map[int]storage.Rows
	refs    map[int]storage.RowRef
	given   []types.Row // rows and values given to or returned by the store
}

func newStoreExec(clk *clock, defs []*Def) *storeExec {
	st, err := basic.NewStore("")
	if err != nil {
		fatal(err)
	}
	return newStoreExecOn(clk, defs, st)
}

func newStoreExecOn(clk *clock, defs []*Def, st storage.Store) *storeExec {
	x := &storeExec{clk: clk, defs: defs, st: st}
	for _, d := range defs {
		x.args = append(x.args, d.args())
	}
	x.forget()
	return x
}

func (x *storeExec) forget() {
	x.tables = map[int]storage.Table{}
	x.tblDef = map[int]int{}
	x.cursors = map[int]storage.Rows{}
	x.refs = map[int]storage.RowRef{}
}

func toRow(vs []Val) types.Row {
	if vs == nil {
		return nil
	}
	r := make(types.Row, 0, len(vs))
	for _, v := range vs {
		r = append(r, fromVal(v))
	}
	return r
}

func fromRow(r types.Row) []Val {
	vs := make([]Val, 0, len(r))
	for _, v := range r {
		vs = append(vs, toVal(v))
	}
	return vs
}

func toCols(cols []int) []types.ColumnNum {
	if len(cols) == 1 && cols[0] == -1 {
		return nil
	}
	r := make([]types.ColumnNum, 0, len(cols))
	for _, c := range cols {
		r = append(r, types.ColumnNum(c))
	}
	return r
}

// A predicate compares a column with a value.
type pred struct {
	col types.ColumnNum
	rel int
	val types.Value
}

func (p pred) Column() types.ColumnNum { return p.col }

func (p pred) holds(c int) bool {
	switch p.rel {
	case 0:
		return c == 0
	case 1:
		return c < 0
	case 2:
		return c >= 0
	default:
		return c != 0
	}
}

func cmpOrdered[T int64 | float64](a, b T) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	} else if a == b {
		return 0
	} else if b == b {
		return -1
	} else if a == a {
		return 1
	}
	return 0
}

type boolPred struct{ pred }
type stringPred struct{ pred }
type bytesPred struct{ pred }
type floatPred struct{ pred }
type intPred struct{ pred }

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (p boolPred) BoolPred(b types.BoolValue) bool {
	return p.holds(cmpOrdered(b2i(bool(b)), b2i(bool(p.val.(types.BoolValue)))))
}
func (p stringPred) StringPred(s types.StringValue) bool {
	return p.holds(strings.Compare(string(s), string(p.val.(types.StringValue))))
}
func (p bytesPred) BytesPred(b types.BytesValue) bool {
	return p.holds(bytes.Compare(b, p.val.(types.BytesValue)))
}
func (p floatPred) Float64Pred(f types.Float64Value) bool {
	return p.holds(cmpOrdered(float64(f), float64(p.val.(types.Float64Value))))
}
func (p intPred) Int64Pred(i types.Int64Value) bool {
	return p.holds(cmpOrdered(int64(i), int64(p.val.(types.Int64Value))))
}

func toPred(raw []json.RawMessage) storage.Predicate {
	if len(raw) == 0 {
		return nil
	}
	var p pred
	var v Val
	if json.Unmarshal(raw[0], &p.col) != nil || json.Unmarshal(raw[1], &p.rel) != nil ||
		json.Unmarshal(raw[2], &v) != nil {
		fatal("bad predicate")
	}
	p.val = fromVal(v)
	switch p.val.(type) {
	case types.BoolValue:
		return boolPred{p}
	case types.StringValue:
		return stringPred{p}
	case types.BytesValue:
		return bytesPred{p}
	case types.Float64Value:
		return floatPred{p}
	case types.Int64Value:
		return intPred{p}
	}
	fatal("bad predicate value")
	return nil
}

// table opens a table or uses the one opened before.
func (x *storeExec) table(e *SEv) (storage.Table, error) {
	if e.Keep == 1 && x.tblDef[e.Tid] == e.Def {
		if tbl, ok := x.tables[e.Tid]; ok {
			return tbl, nil
		}
	}
	if x.tx == nil {
		return nil, errors.New("no transaction")
	}
	a := &x.args[e.Def-1]
	tbl, err := x.tx.OpenTable(x.ctx(), storage.TableId(e.Tid), a.tn, a.cols, a.types, a.key)
	if err != nil {
		return nil, err
	}
	x.tables[e.Tid] = tbl
	x.tblDef[e.Tid] = e.Def
	return tbl, nil
}

// reported is the number of the definition which the table reports, or 0.
func (x *storeExec) reported(tbl storage.Table, tid int) int {
	if tbl.TID() != storage.TableId(tid) {
		return 0
	}
	for i, a := range x.args {
		if tbl.Name() == a.tn && slices.Equal(tbl.ColumnNames(), a.cols) &&
			slices.Equal(tbl.ColumnTypes(), a.types) && slices.Equal(tbl.Key(), a.key) {
			return i + 1
		}
	}
	return 0
}

func (x *storeExec) note(r types.Row) types.Row {
	x.given = append(x.given, r)
	return r
}

func (x *storeExec) readAll(rows storage.Rows, fn func(r types.Row)) error {
	for i := 0; ; i++ {
		r, err := rows.Next(x.ctx())
		if err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
		if i > 100000 {
			return errors.New("endless rows")
		}
		fn(r)
	}
}

// atKey runs fn with a reference to the one row with the key of e.Row.
func (x *storeExec) atKey(e *SEv, fn func(rr storage.RowRef) error) (Res, error) {
	tbl, err := x.table(e)
	if err != nil {
		return nil, err
	}
	row := toRow(e.Row)
	rows, err := tbl.Rows(x.ctx(), nil, row, row, nil)
	if err != nil {
		return nil, err
	}
	defer rows.Close(x.ctx())
	_, err = rows.Next(x.ctx())
	if err != nil {
		return nil, err
	}
	rr, err := rows.Current()
	if err != nil {
		return nil, err
	}
	if err := fn(rr); err != nil {
		return nil, err
	}
	return resOK, nil
}

func (x *storeExec) do(e *SEv) Res {
	res := x.clk.guard(func() (Res, error) { return x.exec(e) })
	e.ended = x.cancelled()
	return res
}

func (x *storeExec) completing() storage.Transaction {
	if x.tx == nil {
		return x.prev
	}
	return x.tx
}

func (x *storeExec) exec(e *SEv) (Res, error) {
	switch e.Op {
	case "begin":
		x.tx = x.st.Begin()
		x.forget()
	case "commit", "rollback":
		tx := x.completing()
		var err error
		if e.Op == "commit" {
			err = tx.Commit(x.ctx())
		} else {
			err = tx.Rollback()
		}
		if err != nil {
			return nil, err
		}
		x.prev = tx
		x.tx = nil
		x.forget()
	case "nextstmt":
		x.tx.NextStmt()
	case "create":
		a := &x.args[e.Def-1]
		err := x.tx.CreateTable(x.ctx(), storage.TableId(e.Tid), a.tn, a.cols, a.types, a.key)
		if err != nil {
			return nil, err
		}
		delete(x.tables, e.Tid)
	case "drop":
		err := x.tx.DropTable(x.ctx(), storage.TableId(e.Tid))
		if err != nil {
			return nil, err
		}
		delete(x.tables, e.Tid)
	case "open":
		tbl, err := x.table(e)
		if err != nil {
			return nil, err
		}
		return Res{"ok", x.reported(tbl, e.Tid)}, nil
	case "scan":
		tbl, err := x.table(e)
		if err != nil {
			return nil, err
		}
		rows, err := tbl.Rows(x.ctx(), toCols(e.Cols), toBound(e.Min), toBound(e.Max), toPred(e.Pred))
		if err != nil {
			return nil, err
		}
		got := []Val2{}
		err = x.readAll(rows, func(r types.Row) { got = append(got, fromRow(x.note(r))) })
		if err != nil {
			return nil, err
		}
		if err := rows.Close(x.ctx()); err != nil {
			return nil, err
		}
		return Res{"rows", got}, nil
	case "insert":
		tbl, err := x.table(e)
		if err != nil {
			return nil, err
		}
		var rows []types.Row
		for _, r := range e.Rows {
			rows = append(rows, x.note(toRow(r)))
		}
		err = tbl.Insert(x.ctx(), rows)
		if err != nil {
			return nil, err
		}
	case "rows":
		tbl, err := x.table(e)
		if err != nil {
			return nil, err
		}
		rows, err := tbl.Rows(x.ctx(), toCols(e.Cols), toBound(e.Min), toBound(e.Max), toPred(e.Pred))
		if err != nil {
			return nil, err
		}
		x.cursors[e.C] = rows
	case "next":
		r, err := x.cursors[e.C].Next(x.ctx())
		if err == io.EOF {
			return Res{"eof"}, nil
		} else if err != nil {
			return nil, err
		}
		return Res{"row", fromRow(x.note(r))}, nil
	case "fetch":
		rows := []any{}
		for i := 0; i < e.N; i++ {
			r, err := x.cursors[e.C].Next(x.ctx())
			if err == io.EOF {
				return Res{"rows", rows, true}, nil
			} else if err != nil {
				return nil, err
			}
			rows = append(rows, fromRow(x.note(r)))
		}
		return Res{"rows", rows, false}, nil
	case "cur":
		rr, err := x.cursors[e.C].Current()
		if err != nil {
			return nil, err
		}
		x.refs[e.R] = rr
	case "close":
		err := x.cursors[e.C].Close(x.ctx())
		if err != nil {
			return nil, err
		}
	case "upd":
		err := x.refs[e.R].Update(x.ctx(), toCols(e.Cols), x.note(toRow(e.Vals)))
		if err != nil {
			return nil, err
		}
	case "del":
		err := x.refs[e.R].Delete(x.ctx())
		if err != nil {
			return nil, err
		}
	case "updk":
		return x.atKey(e, func(rr storage.RowRef) error {
			return rr.Update(x.ctx(), toCols(e.Cols), x.note(toRow(e.Vals)))
		})
	case "delk":
		return x.atKey(e, func(rr storage.RowRef) error { return rr.Delete(x.ctx()) })
	case "scribble":
		for _, r := range x.given {
			for i := range r {
				if b, ok := r[i].(types.BytesValue); ok {
					for j := range b {
						b[j] ^= 0x55
					}
				}
				r[i] = types.StringValue("scribbled")
			}
		}
		x.given = nil
	default:
		fatal("unknown operation", e.Op)
	}
	return resOK, nil
}

func toBound(vs []Val) types.Row {
	if len(vs) == 0 {
		return nil
	}
	return toRow(vs)
}
