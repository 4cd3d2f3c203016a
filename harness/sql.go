package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

// The trees of statements as spec/Sql.tla writes them.

type tree = []any

func dumpID(id types.Identifier) any {
	if id == 0 {
		return tree{}
	}
	return idName(id)
}

func dumpIDs(ids []types.Identifier) tree {
	t := tree{}
	for _, id := range ids {
		t = append(t, dumpID(id))
	}
	return t
}

func dumpTable(tn types.TableName) tree {
	return tree{dumpID(tn.Database), dumpID(tn.Schema), dumpID(tn.Table)}
}

func dumpSchema(sn types.SchemaName) tree {
	return tree{dumpID(sn.Database), dumpID(sn.Schema)}
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// deref follows pointers; nil stays nil.
func deref(v any) any {
	for {
		rv := reflect.ValueOf(v)
		if !rv.IsValid() {
			return nil
		}
		if rv.Kind() != reflect.Pointer {
			return v
		}
		if rv.IsNil() {
			return nil
		}
		v = rv.Elem().Interface()
	}
}

var opNames = map[sql.Op]string{
	sql.AddOp: "+", sql.AndOp: "and", sql.BinaryAndOp: "&", sql.BinaryOrOp: "|", sql.ConcatOp: "||",
	sql.DivideOp: "/", sql.EqualOp: "=", sql.GreaterEqualOp: ">=", sql.GreaterThanOp: ">",
	sql.LessEqualOp: "<=", sql.LessThanOp: "<", sql.LShiftOp: "<<", sql.ModuloOp: "%",
	sql.MultiplyOp: "*", sql.NotEqualOp: "<>", sql.OrOp: "or", sql.RShiftOp: ">>",
	sql.SubtractOp: "-", sql.NegateOp: "neg", sql.NotOp: "not",
}

func dumpExprs(es []sql.Expr) tree {
	t := tree{}
	for _, e := range es {
		t = append(t, dumpExpr(e))
	}
	return t
}

// maybeExpr is an expression which may be left out.
func maybeExpr(e sql.Expr) tree {
	if deref(e) == nil {
		return tree{}
	}
	return dumpExpr(e)
}

func dumpExpr(e sql.Expr) tree {
	switch e := deref(e).(type) {
	case nil:
		return tree{"default"}
	case sql.Literal:
		return tree{"lit", toVal(e.Value)}
	case sql.Ref:
		return tree{"ref", dumpIDs(e)}
	case sql.SExpr:
		return tree{"call", dumpID(e.Name), dumpExprs(e.Args)}
	case sql.UnaryExpr:
		if e.Op == sql.NoOp {
			return dumpExpr(e.Expr)
		}
		return tree{"un", opNames[e.Op], dumpExpr(e.Expr)}
	case sql.BinaryExpr:
		return tree{"bin", opNames[e.Op], dumpExpr(e.Left), dumpExpr(e.Right)}
	case sql.Subquery:
		switch e.Op {
		case sql.Scalar:
			return tree{"scalar", dumpStmt(e.Stmt)}
		case sql.Exists:
			return tree{"exists", dumpStmt(e.Stmt)}
		case sql.Any:
			return tree{"cmp", "any", opNames[e.ExprOp], dumpExpr(e.Expr), dumpStmt(e.Stmt)}
		case sql.All:
			return tree{"cmp", "all", opNames[e.ExprOp], dumpExpr(e.Expr), dumpStmt(e.Stmt)}
		}
	}
	return tree{"?", fmt.Sprintf("%T", e)}
}

func dumpRows(rows [][]sql.Expr) tree {
	t := tree{}
	for _, r := range rows {
		t = append(t, dumpExprs(r))
	}
	return t
}

var joinNames = map[sql.JoinType]string{sql.Join: "inner", sql.LeftJoin: "left", sql.RightJoin: "right",
	sql.FullJoin: "full", sql.CrossJoin: "cross"}

func dumpFrom(fi sql.FromItem) tree {
	switch fi := deref(fi).(type) {
	case nil:
		return tree{}
	case sql.FromTableAlias:
		return tree{"table", dumpTable(fi.TableName), dumpID(fi.Alias)}
	case sql.FromIndexAlias:
		return tree{"index", dumpTable(fi.TableName), dumpID(fi.Index), dumpID(fi.Alias)}
	case sql.FromStmt:
		return tree{"query", dumpStmt(fi.Stmt), dumpID(fi.Alias), dumpIDs(fi.ColumnAliases)}
	case sql.FromJoin:
		return tree{"join", joinNames[fi.Type], dumpFrom(fi.Left), dumpFrom(fi.Right), maybeExpr(fi.On),
			dumpIDs(fi.Using)}
	}
	return tree{"?", fmt.Sprintf("%T", fi)}
}

func dumpSelect(s sql.Select) tree {
	res := tree{}
	for _, r := range s.Results {
		switch r := deref(r).(type) {
		case sql.TableResult:
			res = append(res, tree{"table", dumpID(r.Table)})
		case sql.ExprResult:
			res = append(res, tree{"expr", dumpExpr(r.Expr), dumpID(r.Alias)})
		default:
			res = append(res, tree{"?", fmt.Sprintf("%T", r)})
		}
	}
	by := tree{}
	for _, o := range s.OrderBy {
		if ref, ok := deref(o.Expr).(sql.Ref); ok && len(ref) == 1 {
			by = append(by, tree{dumpID(ref[0]), bit(o.Reverse)})
		} else {
			by = append(by, tree{dumpExpr(o.Expr), bit(o.Reverse), "?"})
		}
	}
	return tree{"select", res, dumpFrom(s.From), maybeExpr(s.Where), dumpExprs(s.GroupBy), maybeExpr(s.Having), by}
}

func dumpKey(k sql.IndexKey) tree {
	t := tree{}
	for i, c := range k.Columns {
		t = append(t, tree{dumpID(c), bit(k.Reverse[i])})
	}
	return t
}

var (
	sqlConNames = map[sql.ConstraintType]string{sql.DefaultConstraint: "default",
		sql.NotNullConstraint: "notnull", sql.PrimaryConstraint: "primary",
		sql.UniqueConstraint: "unique", sql.CheckConstraint: "check"}
	sqlTypeNames = map[types.ValueType]string{types.BoolType: "bool", types.StringType: "string",
		types.BytesType: "bytes", types.Float64Type: "float", types.Int64Type: "int"}
	sqlActions = map[sql.RefAction]string{sql.NoAction: "none", sql.Restrict: "restrict",
		sql.Cascade: "cascade", sql.SetNull: "setnull", sql.SetDefault: "setdefault"}
)

func dumpFK(fk sql.ForeignKey) tree {
	return tree{dumpID(fk.Name), dumpIDs(fk.FKCols), dumpTable(fk.RefTable), dumpIDs(fk.RefCols),
		sqlActions[fk.OnDelete], sqlActions[fk.OnUpdate]}
}

func dumpCreateTable(s sql.CreateTable) tree {
	cts, dflts, cons, fks := tree{}, tree{}, tree{}, tree{}
	for _, ct := range s.ColumnTypes {
		cts = append(cts, tree{sqlTypeNames[ct.Type], tree{ct.Size >> 16, ct.Size & 0xFFFF}, bit(ct.Fixed),
			bit(ct.NotNull)})
	}
	for _, d := range s.ColumnDefaults {
		dflts = append(dflts, maybeExpr(d))
	}
	for _, c := range s.Constraints {
		t := tree{sqlConNames[c.Type], dumpID(c.Name), c.ColNum, dumpKey(c.Key), maybeExpr(c.Check)}
		if (c.Type == sql.PrimaryConstraint || c.Type == sql.UniqueConstraint) && !c.Key.Unique {
			t = append(t, "not unique")
		}
		cons = append(cons, t)
	}
	for _, fk := range s.ForeignKeys {
		fks = append(fks, dumpFK(*fk))
	}
	return tree{"createtable", dumpTable(s.Table), bit(s.IfNotExists), dumpIDs(s.Columns), cts, dflts, cons, fks}
}

func dumpAlter(a any) tree {
	switch a := deref(a).(type) {
	case sql.AddForeignKey:
		return tree{"addforeign", dumpFK(a.ForeignKey)}
	case sql.DropConstraint:
		if a.Column != 0 {
			t := tree{"alter", dumpID(a.Column), sqlConNames[a.Type]}
			if a.Name != 0 || a.IfExists {
				t = append(t, "?")
			}
			return t
		}
		t := tree{"dropconstraint", dumpID(a.Name), bit(a.IfExists)}
		if a.Type != 0 {
			t = append(t, "?")
		}
		return t
	}
	return tree{"?", fmt.Sprintf("%T", a)}
}

func byteTree(s string) tree {
	t := tree{}
	for i := 0; i < len(s); i++ {
		t = append(t, int(s[i]))
	}
	return t
}

func dumpStmt(s sql.Stmt) tree {
	switch s := deref(s).(type) {
	case nil:
		return tree{"nil"}
	case sql.Begin:
		return tree{"begin"}
	case sql.Commit:
		return tree{"commit"}
	case sql.Rollback:
		return tree{"rollback"}
	case sql.Set:
		return tree{"set", dumpID(s.Variable), byteTree(s.Value)}
	case sql.Show:
		return tree{"show", dumpID(s.Variable)}
	case sql.Explain:
		return tree{"explain", bit(s.Verbose), dumpStmt(s.Stmt)}
	case sql.Copy:
		return tree{"copy", dumpTable(s.Table), dumpIDs(s.Columns), int(s.Delimiter)}
	case sql.Delete:
		return tree{"delete", dumpTable(s.Table), maybeExpr(s.Where)}
	case sql.InsertValues:
		return tree{"insert", dumpTable(s.Table), dumpIDs(s.Columns), dumpRows(s.Rows)}
	case sql.Update:
		cus := tree{}
		for _, cu := range s.ColumnUpdates {
			cus = append(cus, tree{dumpID(cu.Column), dumpExpr(cu.Expr)})
		}
		return tree{"update", dumpTable(s.Table), cus, maybeExpr(s.Where)}
	case sql.Values:
		return tree{"values", dumpRows(s.Expressions)}
	case sql.Select:
		return dumpSelect(s)
	case sql.CreateTable:
		return dumpCreateTable(s)
	case sql.CreateIndex:
		return tree{"createindex", dumpID(s.Index), dumpTable(s.Table), bit(s.Key.Unique), dumpKey(s.Key),
			bit(s.IfNotExists)}
	case sql.CreateDatabase:
		var opts []types.Identifier
		for o := range s.Options {
			opts = append(opts, o)
		}
		sort.Slice(opts, func(i, j int) bool { return slices.Compare(idName(opts[i]), idName(opts[j])) < 0 })
		t := tree{}
		for _, o := range opts {
			t = append(t, tree{dumpID(o), byteTree(s.Options[o])})
		}
		return tree{"createdatabase", dumpID(s.Database), t}
	case sql.CreateSchema:
		return tree{"createschema", dumpSchema(s.Schema)}
	case sql.AlterTable:
		as := tree{}
		for _, a := range s.Actions {
			as = append(as, dumpAlter(a))
		}
		return tree{"altertable", dumpTable(s.Table), as}
	case sql.DropTable:
		ts := tree{}
		for _, tn := range s.Tables {
			ts = append(ts, dumpTable(tn))
		}
		return tree{"droptable", bit(s.IfExists), ts, bit(s.Cascade)}
	case sql.DropIndex:
		return tree{"dropindex", bit(s.IfExists), dumpID(s.Index), dumpTable(s.Table)}
	case sql.DropDatabase:
		return tree{"dropdatabase", bit(s.IfExists), dumpID(s.Database)}
	case sql.DropSchema:
		return tree{"dropschema", bit(s.IfExists), dumpSchema(s.Schema)}
	}
	return tree{"?", fmt.Sprintf("%T", s)}
}

// runesReader gives runes one by one, whatever they are.
type runesReader struct {
	x      []rune
	cut    bool // fail at the end
	once   bool // and only once
	err    int  // with which error
	failed bool
}

var errCuts = []error{errors.New("reading failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded,
	os.ErrClosed, context.Canceled, io.ErrNoProgress}

func (rr *runesReader) ReadRune() (rune, int, error) {
	if len(rr.x) == 0 {
		if rr.cut && !(rr.failed && rr.once) {
			rr.failed = true
			return 0, 0, errCuts[rr.err]
		}
		return 0, 0, io.EOF
	}
	r := rr.x[0]
	rr.x = rr.x[1:]
	return r, len(string(r)), nil
}

// sqlParser parses scripts, watched by a clock.
type sqlParser struct {
	clk  *clock
	res  tree // of the script being parsed
	text string
	cut  bool // reading fails at the end

	stmts []sql.Stmt // of each result, if any
}

// parse parses a script; take says how much of the data of each COPY to read (and then -1 for
// all of it).
func (sp *sqlParser) parse(rr io.RuneReader, size int, take []int) tree {
	sp.res = tree{}
	sp.stmts = nil
	p := parser.NewParser(rr, "script")
	if sr, ok := rr.(*runesReader); ok {
		sp.text = string(sr.x)
	}
	for len(sp.res) < size+3 {
		sp.stmts = append(sp.stmts, nil)
		r := sp.next(p, &take)
		sp.res = append(sp.res, r)
		if r[0] == "eof" || r[0] == "panic" {
			break
		}
		if sp.cut && (r[0] == "err" && rr.(*runesReader).failed || r[0] == "copy" && r[4] == 2) {
			break
		}
	}

	// A statement is what it was when it was returned, whatever was parsed after it.
	for i, r := range sp.res {
		if sp.stmts[i] == nil {
			continue
		}
		if r := r.(tree); !reflect.DeepEqual(dumpStmt(sp.stmts[i]), r[1]) {
			sp.res[i] = tree{"changed", r, dumpStmt(sp.stmts[i])}
		}
	}
	return sp.res
}

func (sp *sqlParser) next(p *parser.Parser, take *[]int) (res tree) {
	sp.clk.start.Store(time.Now().UnixNano())
	defer func() {
		sp.clk.start.Store(0)
		if r := recover(); r != nil {
			res = tree{"panic", fmt.Sprint(r)}
		}
	}()

	stmt, err := p.Parse()
	if err == io.EOF {
		return tree{"eof"}
	} else if err != nil {
		return tree{"err"}
	}
	s := deref(stmt)
	if s == nil {
		return tree{"nil"}
	}
	if stmt.String() == "" {
		return tree{"panic", "nothing displayed"}
	}
	sp.stmts[len(sp.stmts)-1] = stmt
	cp, ok := s.(sql.Copy)
	if !ok {
		return tree{"stmt", dumpStmt(stmt)}
	}

	n := -1
	if len(*take) > 0 {
		n = (*take)[0]
		*take = (*take)[1:]
	}
	data := tree{}
	all := 0
	for n < 0 || len(data) < n {
		r, _, err := cp.From.ReadRune()
		if err != nil {
			all = 1
			if err != io.EOF {
				all = 2
			}
			break
		}
		data = append(data, int(r))
	}
	return tree{"copy", dumpStmt(stmt), cp.FromLine, data, all}
}

func runeInts(x []rune) []int {
	t := make([]int, len(x))
	for i, r := range x {
		t[i] = int(r)
	}
	return t
}

// kinds leaves only what kind of result each is, and one of several of the same; the first is how
// many there were.
func kinds(res tree) tree {
	t := tree{len(res)}
	for i, r := range res {
		k := r.(tree)[0]
		if i == 0 || k != res[i-1].(tree)[0] {
			t = append(t, tree{k})
		}
	}
	return t
}

// sqlChild parses its input by itself, as it may be ended by a stack which is too deep.
func sqlChild() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal(err)
	}
	sp := &sqlParser{}
	sp.clk = newClock(func() {
		os.Stdout.Write(encodeJSON(kinds(append(sp.res, tree{"hang"}))))
	})
	n := len([]rune(string(b)))
	os.Stdout.Write(encodeJSON(kinds(sp.parse(strings.NewReader(string(b)), n, nil))))
}

func inChild(text string) any {
	cmd := exec.Command(os.Args[0], "sql-child")
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Run(); err != nil {
		return tree{1, tree{"crash"}}
	}
	return jsonRaw(out.Bytes())
}

type jsonRaw []byte

func (j jsonRaw) MarshalJSON() ([]byte, error) { return j, nil }
