package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// Types with names of their own, which a field may have.
type (
	namedBool    bool
	namedInt     int
	namedInt8    int8
	namedInt16   int16
	namedInt32   int32
	namedInt64   int64
	namedFloat32 float32
	namedFloat64 float64
	namedString  string
	namedBytes   []byte
)

var fieldKinds = map[string][2]reflect.Type{
	"bool":    {reflect.TypeOf(false), reflect.TypeOf(namedBool(false))},
	"int":     {reflect.TypeOf(int(0)), reflect.TypeOf(namedInt(0))},
	"int8":    {reflect.TypeOf(int8(0)), reflect.TypeOf(namedInt8(0))},
	"int16":   {reflect.TypeOf(int16(0)), reflect.TypeOf(namedInt16(0))},
	"int32":   {reflect.TypeOf(int32(0)), reflect.TypeOf(namedInt32(0))},
	"int64":   {reflect.TypeOf(int64(0)), reflect.TypeOf(namedInt64(0))},
	"float32": {reflect.TypeOf(float32(0)), reflect.TypeOf(namedFloat32(0))},
	"float64": {reflect.TypeOf(float64(0)), reflect.TypeOf(namedFloat64(0))},
	"string":  {reflect.TypeOf(""), reflect.TypeOf(namedString(""))},
	"bytes":   {reflect.TypeOf([]byte(nil)), reflect.TypeOf(namedBytes(nil))},
}

var kindNames = []string{"bool", "int", "int8", "int16", "int32", "int64", "float32", "float64", "string", "bytes"}

type Field struct {
	Name    []int  `json:"name"`
	Tag     []int  `json:"tag"`
	Kind    string `json:"kind"`
	Ptr     int    `json:"ptr"`
	Size    int    `json:"size"`
	NotNull int    `json:"notnull"`
	Primary int    `json:"primary"`
	named   int
}

func intsText(is []int) string {
	b := make([]byte, len(is))
	for i, x := range is {
		b[i] = byte(x)
	}
	return string(b)
}

func (f *Field) structField() reflect.StructField {
	var tags []string
	if len(f.Tag) > 0 {
		tags = append(tags, "name="+intsText(f.Tag))
	}
	if f.Size > 0 {
		tags = append(tags, fmt.Sprintf("size=%d", f.Size))
	}
	if f.NotNull == 1 {
		tags = append(tags, "notnull")
	}
	if f.Primary == 1 {
		tags = append(tags, "primary")
	}
	typ := fieldKinds[f.Kind][f.named]
	if f.Ptr == 1 {
		typ = reflect.PointerTo(typ)
	}
	sf := reflect.StructField{Name: intsText(f.Name), Type: typ}
	if len(tags) > 0 {
		sf.Tag = reflect.StructTag(fmt.Sprintf("maho:%q", strings.Join(tags, ",")))
	}
	return sf
}

// set sets a field of a structure to a value.
func (f *Field) set(fv reflect.Value, v Val) {
	if f.Kind == "bytes" {
		if v[0] == 0 {
			fv.SetZero()
		} else {
			fv.SetBytes(v.bytes())
		}
		return
	}
	if f.Ptr == 1 {
		if v[0] == 0 {
			fv.SetZero()
			return
		}
		fv.Set(reflect.New(fv.Type().Elem()))
		fv = fv.Elem()
	}
	switch v := fromVal(v).(type) {
	case types.BoolValue:
		fv.SetBool(bool(v))
	case types.Int64Value:
		fv.SetInt(int64(v))
	case types.Float64Value:
		fv.SetFloat(float64(v))
	case types.StringValue:
		fv.SetString(string(v))
	case nil: // the zero value of a field which cannot be NULL
		fv.SetZero()
	}
}

// get is the value of a field.
func (f *Field) get(fv reflect.Value) Val {
	if f.Kind == "bytes" {
		if fv.IsNil() && f.NotNull == 0 {
			return Val{0}
		}
		return bytesInts(5, fv.Bytes())
	}
	if f.Ptr == 1 {
		if fv.IsNil() {
			return Val{0}
		}
		fv = fv.Elem()
	}
	switch fv.Kind() {
	case reflect.Bool:
		return toVal(types.BoolValue(fv.Bool()))
	case reflect.String:
		return bytesInts(4, []byte(fv.String()))
	case reflect.Float32, reflect.Float64:
		return floatVal(fv.Float())
	}
	return intVal(fv.Int())
}

// TyEv is an event on a typed table.
type TyEv struct {
	Op   string `json:"op"`
	Rows []Val2 `json:"rows"`
	Row  []Val  `json:"row"`
	Min  []Val  `json:"min"`
	Max  []Val  `json:"max"`
	Stop int    `json:"stop"`
	Mask []int  `json:"mask"`
	Cols []int  `json:"cols"`
	Vals []Val  `json:"vals"`
	Res  Res    `json:"res"`

	fired bool // the storage failed or the context ended during the call
}

func (e *TyEv) line() map[string]any {
	m := map[string]any{"op": e.Op, "res": e.Res}
	if e.fired {
		m["fired"] = 1
	}
	nn := func(v []Val) []Val {
		if v == nil {
			return []Val{}
		}
		return v
	}
	switch e.Op {
	case "ins":
		m["rows"] = e.Rows
		if e.Rows == nil {
			m["rows"] = []Val2{}
		}
	case "lookup":
		m["row"] = e.Row
	case "upd":
		m["cols"], m["vals"] = e.Cols, e.Vals
		fallthrough
	case "del":
		m["mask"] = e.Mask
		fallthrough
	case "sel":
		m["min"], m["max"], m["stop"] = nn(e.Min), nn(e.Max), e.Stop
	}
	return m
}

type typedExec struct {
	canceller
	clk    *clock
	fields []Field
	typ    reflect.Type
	ti     *engine.TypedInfo
	st     storage.Store
	tx     storage.Transaction
	byVal  bool // give MakeTypedInfo a structure and not a pointer to one
	scrib  bool // overwrite what was given once it was used
	flt    *faults
	reused any // a structure which is used again and again
}

// reset makes the table; its result is the definition the code derived.
func (x *typedExec) reset() Res {
	return x.clk.guard(func() (Res, error) {
		var sfs []reflect.StructField
		for i := range x.fields {
			sfs = append(sfs, x.fields[i].structField())
		}
		x.typ = reflect.StructOf(sfs)
		var st any = reflect.New(x.typ).Interface()
		if x.byVal {
			st = reflect.New(x.typ).Elem().Interface()
		}
		tn := types.TableName{Database: types.ID("d", false), Schema: types.ID("s", false), Table: types.ID("t", false)}
		x.ti = engine.MakeTypedInfo(storage.TableId(2048), tn, st)
		if x.ti.TableId() != 2048 || x.ti.TableName() != tn {
			return Res{"wrong name or id"}, nil
		}
		var err error
		if x.st == nil {
			x.st, err = basic.NewStore("")
			if err != nil {
				return nil, err
			}
		}
		tx := x.st.Begin()
		if err := engine.CreateTypedTable(ctx, tx, x.ti); err != nil {
			return nil, err
		}
		if err := tx.Commit(ctx); err != nil {
			return nil, err
		}
		return Res{"ok", tableDefOf(x.ti.TableType())}, nil
	})
}

func (x *typedExec) mk(row []Val) any {
	if len(row) == 0 {
		return nil
	}
	p := reflect.New(x.typ)
	for i := range x.fields {
		x.fields[i].set(p.Elem().Field(i), row[i])
	}
	return p.Interface()
}

func (x *typedExec) read(st any) []Val {
	v := reflect.ValueOf(st).Elem()
	row := []Val{}
	for i := range x.fields {
		row = append(row, x.fields[i].get(v.Field(i)))
	}
	return row
}

func (x *typedExec) scribble(st any) {
	if !x.scrib || st == nil {
		return
	}
	v := reflect.ValueOf(st).Elem()
	for i := range x.fields {
		fv := v.Field(i)
		if x.fields[i].Kind == "bytes" && !fv.IsNil() {
			for j := range fv.Bytes() {
				fv.Bytes()[j] ^= 0x55
			}
		} else if x.fields[i].Ptr == 1 && !fv.IsNil() {
			fv.Elem().SetZero()
		}
		fv.SetZero()
	}
}

func (x *typedExec) do(e *TyEv) Res {
	e.Res = x.clk.guard(func() (Res, error) {
		rows := []Val2{}
		visit := func(row types.Row) {
			if x.reused == nil {
				x.reused = reflect.New(x.typ).Interface()
			}
			st := x.reused
			if !x.scrib {
				st = reflect.New(x.typ).Interface()
			}
			x.ti.RowToStruct(row, st)
			rows = append(rows, x.read(st))
			x.scribble(st)
		}
		stop := func() bool { return e.Stop > 0 && len(rows) >= e.Stop }
		chosen := func() bool { return e.Mask[(len(rows)-1)%len(e.Mask)] == 1 }
		switch e.Op {
		case "begin":
			x.tx = x.st.Begin()
			return resOK, nil
		case "commit":
			return resOK, x.tx.Commit(x.ctx())
		case "rollback":
			return resOK, x.tx.Rollback()
		case "ins":
			var sts []any
			for _, r := range e.Rows {
				sts = append(sts, x.mk(r))
			}
			err := engine.TypedTableInsert(x.ctx(), x.tx, x.ti, sts...)
			for _, st := range sts {
				x.scribble(st)
			}
			return resOK, err
		case "lookup":
			st := x.mk(e.Row)
			err := engine.TypedTableLookup(x.ctx(), x.tx, x.ti, st)
			if err == io.EOF {
				return Res{"eof"}, nil
			} else if err != nil {
				return nil, err
			}
			row := x.read(st)
			x.scribble(st)
			return Res{"row", row}, nil
		case "sel":
			err := engine.TypedTableSelect(x.ctx(), x.tx, x.ti, x.mk(e.Min), x.mk(e.Max),
				func(row types.Row) error {
					if stop() {
						return io.EOF
					}
					visit(row)
					return nil
				})
			return Res{"rows", rows}, err
		case "del":
			err := engine.TypedTableDelete(x.ctx(), x.tx, x.ti, x.mk(e.Min), x.mk(e.Max),
				func(row types.Row) (bool, error) {
					if stop() {
						return false, io.EOF
					}
					visit(row)
					return chosen(), nil
				})
			return Res{"rows", rows}, err
		case "upd":
			var sfs []reflect.StructField
			for _, c := range e.Cols {
				sf := x.typ.Field(c)
				sf.Tag = ""
				sf.Offset, sf.Index = 0, nil
				sfs = append(sfs, sf)
			}
			utyp := reflect.StructOf(sfs)
			err := engine.TypedTableUpdate(x.ctx(), x.tx, x.ti, x.mk(e.Min), x.mk(e.Max),
				func(row types.Row) (any, error) {
					if stop() {
						return nil, io.EOF
					}
					visit(row)
					if !chosen() {
						return nil, nil
					}
					p := reflect.New(utyp)
					for i, c := range e.Cols {
						x.fields[c].set(p.Elem().Field(i), e.Vals[i])
					}
					return p.Interface(), nil
				})
			return Res{"rows", rows}, err
		}
		panic("harness: " + e.Op)
	})
	e.fired = x.cancelled()
	if x.flt != nil && x.flt.disarm() {
		e.fired = true
	}
	return e.Res
}

func typedReplay(in, out string) {
	var tys [][]Field
	replay(in, out,
		func(b []byte) bool {
			var p struct {
				Types [][]Field `json:"types"`
			}
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err)
			}
			tys = p.Types
			return true
		},
		func(rp *replayer, clk *clock, b []byte) {
			var p struct {
				Type int `json:"type"`
				Path []struct {
					E   TyEv `json:"e"`
					Res Res  `json:"res"`
				} `json:"path"`
				Act   bool   `json:"act"`
				Dirty bool   `json:"dirty"`
				Cur   []Val2 `json:"cur"`
				Com   []Val2 `json:"com"`
			}
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err, string(b))
			}
			x := &typedExec{clk: clk, fields: tys[p.Type-1], scrib: len(b)%2 == 0}
			if res := x.reset(); !ok(res[:1]) {
				rp.mismatch(b, 0, "create", resOK, res)
				return
			}
			for i, s := range p.Path {
				e := s.E
				res := x.do(&e)
				rp.events.Add(1)
				if !sameJSON(res, s.Res) {
					rp.mismatch(b, i, e.Op, s.Res, res)
					return
				}
			}
			all := func(what string, rows []Val2) bool {
				if rows == nil {
					rows = []Val2{}
				}
				if res := x.do(&TyEv{Op: "sel"}); !sameJSON(res, Res{"rows", rows}) {
					rp.mismatch(b, len(p.Path), what, rows, res)
					return false
				}
				return true
			}
			if p.Act {
				if !p.Dirty && !all("in the transaction", p.Cur) {
					return
				}
				if res := x.do(&TyEv{Op: "rollback"}); !ok(res) {
					rp.mismatch(b, len(p.Path), "rollback", resOK, res)
					return
				}
			}
			x.do(&TyEv{Op: "begin"})
			all("committed", p.Com)
			x.do(&TyEv{Op: "rollback"})
		})
}

var fieldNames = []string{"A", "B", "ID", "TableId", "HTTPServer", "X1", "Col2Name", "ABCdef", "Database",
	"Sequence", "Text", "Select", "RowKey", "A_B", "Z9z", "LongNameOfAField", "CamelCASE", "C3d"}

func randFields(r *rand.Rand, many bool) []Field {
	for {
		n, most := 1+r.Intn(6), 3
		if many {
			n, most = 20+r.Intn(50), 12
		}
		var fs []Field
		seen := map[string]bool{}
		keys := 0
		for len(fs) < n {
			nm := pick(r, fieldNames)
			if many {
				nm = fmt.Sprintf("%s%d", pick(r, []string{"Field", "F", "LongFieldName", "ABC"}), r.Intn(200))
			}
			f := Field{Name: ints([]byte(nm)), Tag: []int{}, Kind: pick(r, kindNames), named: r.Intn(2)}
			if r.Intn(4) == 0 && !many {
				f.Tag = ints([]byte(pick(r, []string{"x", "X y", "select", "Text", "a-b", "__x", "Col"})))
			}
			k := strings.ToLower(strings.ReplaceAll(nm, "_", ""))
			if seen[k] || len(f.Tag) > 0 && seen["tag "+intsText(f.Tag)] {
				continue
			}
			seen[k] = true
			seen["tag "+intsText(f.Tag)] = len(f.Tag) > 0
			switch f.Kind {
			case "bytes":
				f.NotNull = r.Intn(2)
			default:
				f.Ptr = r.Intn(2)
			}
			if r.Intn(2) == 0 {
				f.Size = pick(r, []int{1, 2, 4, 100})
			}
			if r.Intn(2) == 0 && keys < most {
				f.Primary = 1
				keys++
			}
			fs = append(fs, f)
		}
		if keys > 0 {
			return fs
		}
	}
}

func (f *Field) rand(r *rand.Rand, long bool) Val {
	nullable := f.Ptr == 1 || f.Kind == "bytes" && f.NotNull == 0
	if nullable && r.Intn(4) == 0 {
		return Val{0}
	}
	few := f.Primary == 1 || r.Intn(3) > 0
	switch f.Kind {
	case "bool":
		return Val{1, r.Intn(2)}
	case "float32", "float64":
		x := pick(r, []float64{0, 1, -1, 0.5, 2})
		if !few {
			x = randFloat(r)
			if f.Kind == "float32" {
				x = float64(float32(x))
			}
			if x != x {
				x = 1
			}
		}
		return floatVal(x)
	case "string", "bytes":
		max := f.Size
		if max == 0 {
			max = 1
		}
		var s string
		if few {
			s = pick(r, []string{"", "a", "b", "\x00", "ab", "\xff"})
		} else {
			b := make([]byte, r.Intn(max+1))
			r.Read(b)
			s = string(b)
		}
		if long && r.Intn(3) == 0 {
			s = strings.Repeat("z", max+1)
		} else if len(s) > max {
			s = s[:max]
		}
		tag := 4
		if f.Kind == "bytes" {
			tag = 5
		}
		return bytesInts(tag, []byte(s))
	}
	i := int64(r.Intn(5) - 2)
	if !few {
		i = randInt(r)
	}
	switch f.Kind {
	case "int8":
		i = int64(int8(i))
	case "int16":
		i = int64(int16(i))
	case "int32":
		i = int64(int32(i))
	}
	return intVal(i)
}

// typedRandom records random executions on typed tables.
func typedRandom(seed int64, n int, out string) {
	r := rand.New(rand.NewSource(seed))
	tw := newTrace(out)
	clk := newClock(func() {
		tw.line(map[string]any{"op": "hang", "res": Res{"hang"}})
		tw.close()
	})
	defer clk.done()
	for tw.n < n {
		x := &typedExec{clk: clk, fields: randFields(r, r.Intn(15) == 0), byVal: r.Intn(2) == 0, scrib: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			st, err := basic.NewStore("")
			if err != nil {
				fatal(err)
			}
			x.flt = &faults{}
			x.st = &faultStore{st, x.flt}
		}
		res := x.reset()
		tw.line(map[string]any{"op": "reset", "res": res, "fields": x.fields})
		if len(res) != 2 {
			break
		}
		bulks, number := 0, -1 // a key field which is not the same in many rows
		for i, f := range x.fields {
			if f.Primary == 1 && strings.HasPrefix(f.Kind, "int") && f.Kind != "int8" && len(x.fields) < 10 && r.Intn(8) == 0 {
				number = i
			}
		}
		var known []Val2
		row := func(long bool) []Val {
			v := []Val{}
			for i := range x.fields {
				v = append(v, x.fields[i].rand(r, long))
			}
			return v
		}
		key := func() []Val {
			if len(known) > 0 && r.Intn(3) > 0 {
				k := append([]Val{}, pick(r, known)...)
				if r.Intn(2) == 0 { // only the key matters
					for i := range k {
						if x.fields[i].Primary == 0 {
							k[i] = x.fields[i].rand(r, false)
						}
					}
				}
				return k
			}
			return row(false)
		}
		bounds := func(e *TyEv) {
			if r.Intn(3) > 0 {
				e.Min = key()
			}
			if r.Intn(3) > 0 {
				e.Max = key()
				if e.Min != nil && r.Intn(2) == 0 {
					e.Max = e.Min
				}
			}
			if r.Intn(4) == 0 {
				e.Stop = 1 + r.Intn(4)
			}
			e.Mask = pick(r, [][]int{{1}, {1, 0}, {0, 1}, {0}, {0, 0, 1}})
		}
		calm := r.Intn(2) == 0 // nothing fails
		commits := pick(r, []int{2, 2, 2, 25})
		act := false
		for i, steps := 0, pick(r, []int{20, 35, 50, 80, 80, 600})+r.Intn(20); i < steps && tw.n < n; i++ {
			e := &TyEv{Op: "begin"}
			if act {
				switch weighted(r, commits, 2, 12, 8, 8, 4, 8) {
				case 0:
					e.Op = "commit"
				case 1:
					e.Op = "rollback"
				case 2:
					e.Op = "ins"
					k, base := r.Intn(4), -1
					if number >= 0 && bulks < 2 && r.Intn(4) == 0 { // many rows
						bulks++
						k, base = 60+r.Intn(90), r.Intn(3)*151
					}
					for ; k >= 0; k-- {
						v := row(r.Intn(10) == 0 && base < 0)
						if base >= 0 {
							v[number] = intVal(int64(base + k*37%151 - 75))
						}
						e.Rows = append(e.Rows, v)
					}
				case 3:
					e.Op, e.Row = "lookup", key()
				case 4:
					e.Op = "sel"
					bounds(e)
				case 5:
					e.Op = "del"
					bounds(e)
				case 6:
					e.Op = "upd"
					bounds(e)
					if r.Intn(2) == 0 {
						e.Min = key()
						e.Max = e.Min
					}
					for _, c := range r.Perm(len(x.fields))[:1+r.Intn(len(x.fields))] {
						e.Cols = append(e.Cols, c)
						e.Vals = append(e.Vals, x.fields[c].rand(r, r.Intn(20) == 0))
					}
				}
			}
			switch e.Op {
			case "ins", "lookup", "sel", "del", "upd":
				n := 2
				if !calm {
					n = r.Intn(10)
				}
				switch n {
				case 0:
					x.cancel(1 + r.Intn(6))
				case 1:
					if x.flt != nil {
						x.flt.arm(1+r.Intn(10), r.Intn(2) == 0)
					}
				}
			}
			x.do(e)
			tw.line(e.line())
			switch e.Op {
			case "begin":
				act = true
			case "commit", "rollback":
				act = false
			case "ins":
				if ok(e.Res) { // not the rows with values that are too long
					known = append(known, e.Rows...)
				}
			case "upd", "del":
				if !(len(e.Res) == 2) { // it may have been done in part
					e = &TyEv{Op: "rollback"}
					x.do(e)
					tw.line(e.line())
					act = false
				}
			}
		}
		if act {
			x.do(&TyEv{Op: "rollback"})
		}
	}
	tw.close()
}
