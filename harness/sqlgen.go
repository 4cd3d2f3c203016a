package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"
)

// sqlGen writes random statements as sequences of written tokens. Nothing relies on them being
// valid: what they mean is for spec/Sql.tla to say.
type sqlGen struct {
	r       *rand.Rand
	profile string
	out     []string
	depth   int // of expressions, queries and from lists which may still be nested
}

func (g *sqlGen) t(toks ...string) { g.out = append(g.out, toks...) }

func (g *sqlGen) p(percent int) bool { return g.r.Intn(100) < percent }

// opt writes tokens or not.
func (g *sqlGen) opt(percent int, toks ...string) bool {
	if !g.p(percent) {
		return false
	}
	g.t(toks...)
	return true
}

// count is a small number which is sometimes larger.
func (g *sqlGen) count(max int) int {
	n := 1
	for n < max && g.p(45) {
		n++
	}
	return n
}

func (g *sqlGen) list(n int, f func()) {
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		f()
	}
}

var (
	sqlFewNames  = []string{"a", "b", "c", "A", `"a"`, `"B"`, "a_b", "b_c", "d"}
	sqlSomeNames = []string{"a", "b", "c", "t", "tbl1", "tbl_2", "col3", "x$y", "_z", "e", "x", "b1", "E", "Abc", "ABC",
		"é", "Éa", "straße", "Àß", "count", "COUNT", "count_all", "columns", "config", "tables",
		`"Quoted"`, `"a"`, `"A"`, `"two words"`, "`back`", "[brackets]", `"select"`, `"a""`, "[a`b]", "`a\"b`", `"é"`,
		`"世界"`, `"count"`, `"COUNT"`, `"text"`, `"1"`, "[--]", "[;]", `"/*"`, "`'`",
		"text", "INT", "Double", "precision", "stdin", "bytes", "is_null", "primary_", "nulls", "b2"}
	sqlReserved = []string{"ACTION", "ADD", "ALL", "ALTER", "AND", "ANY", "AS", "ASC", "BEGIN", "BY", "CASCADE", "CHECK",
		"COLUMN", "COMMIT", "CONSTRAINT", "COPY", "CREATE", "CROSS", "DATABASE", "DEFAULT", "DELETE", "DELIMITER",
		"DESC", "DROP", "EXISTS", "EXPLAIN", "FALSE", "FOREIGN", "FROM", "FULL", "GROUP", "HAVING", "IF", "IN",
		"INDEX", "INNER", "INSERT", "INTO", "IS", "JOIN", "KEY", "LEFT", "NO", "NOT", "NULL", "ON", "OR", "ORDER",
		"OUTER", "PRIMARY", "RESTRICT", "REFERENCES", "RIGHT", "ROLLBACK", "SCHEMA", "SELECT", "SET", "SHOW", "SOME",
		"START", "TABLE", "TO", "TRANSACTION", "TRUE", "UNIQUE", "UPDATE", "USE", "USING", "VALUES", "VERBOSE",
		"WHERE", "WITH"}
	sqlTypeWords = []string{"BINARY", "VARBINARY", "BLOB", "BYTEA", "BYTES", "CHAR", "CHARACTER", "VARCHAR", "TEXT",
		"BOOL", "BOOLEAN", "DOUBLE", "REAL", "SMALLINT", "INT2", "INT", "INTEGER", "INT4", "BIGINT", "INT8"}
	sqlPunct  = []string{"(", ")", ",", ".", "@", "*", "=", "-", "+", "<", ">=", "||", "/", "<>", "!", "|", "&", "<<", "%"}
	sqlBadish = []string{"?", "^", "~", "{", "}", "]", ":", "\\", "#", "=<", "!<", "**", "=!", "99999999999999999999",
		"9223372036854775808", `""`, "[]", "$0", "$x", "$ ", "1.", "\x00", "\u007f", "×", "÷", "½", "$99999999999999999999"}
	sqlBinary = []string{"+", "-", "*", "/", "%", "||", "=", "==", "<>", "!=", "<", "<=", ">", ">=", "<<", ">>", "&", "|",
		"AND", "OR"}
)

func (g *sqlGen) name() string {
	if g.profile == "C34" {
		return pick(g.r, sqlFewNames)
	}
	if g.p(60) {
		return pick(g.r, sqlSomeNames[:10])
	}
	return pick(g.r, sqlSomeNames)
}

func (g *sqlGen) id() { g.t(g.name()) }

func (g *sqlGen) ids(max int) { g.list(g.count(max), g.id) }

func (g *sqlGen) table() {
	g.id()
	for i := 0; i < 2 && g.p(20); i++ {
		g.t(".")
		g.id()
	}
}

func (g *sqlGen) schema() {
	g.id()
	if g.p(30) {
		g.t(".")
		g.id()
	}
}

// Literals.

func (g *sqlGen) digits(n int) string {
	s := make([]byte, n)
	for i := range s {
		s[i] = byte('0' + g.r.Intn(10))
	}
	return string(s)
}

func (g *sqlGen) integer() string {
	switch weighted(g.r, 6, 2, 1) {
	case 0:
		return pick(g.r, []string{"0", "1", "2", "7", "10", "-1", "+5", "-0", "00", "007"})
	case 1:
		return pick(g.r, []string{"9223372036854775807", "-9223372036854775808", "9223372036854775808",
			"-9223372036854775809", "4294967296", "2147483647", "+9223372036854775807", "-2147483649", "65536",
			"18446744073709551616", "00000000000000000000012", "-00000000000000000000009223372036854775808",
			strings.Repeat("0", g.r.Intn(300)) + "7", "00009223372036854775807", "00009223372036854775808"})
	}
	return pick(g.r, []string{"", "-", "+"}) + g.digits(1+g.r.Intn(20))
}

func (g *sqlGen) float() string {
	switch weighted(g.r, 40, 20, g.rare(1, 6)) {
	case 2:
		return g.hardFloat()
	case 0:
		return pick(g.r, []string{"0.5", "1.25", "-2.75", "100.0", "0.0", "3.", "+0.125", "-0.5", "4503599627370496.5",
			"9007199254740992.0", "1.5", "00.50"})
	}
	return pick(g.r, []string{"", "-", "+"}) + g.digits(1+g.r.Intn(4)) + "." + g.digits(g.r.Intn(3)) +
		pick(g.r, []string{"", "5", "25", "125", "0"})
}

// rare is a weight which is larger for C32.
func (g *sqlGen) rare(n, c32 int) int {
	if g.profile == "C32" {
		return c32
	}
	return n
}

// hardFloat is a decimal with many digits.
func (g *sqlGen) hardFloat() string {
	sign := pick(g.r, []string{"", "-", "+"})
	switch g.r.Intn(6) {
	case 0: // out of range or nearly so
		return sign + pick(g.r, []string{"1", "9", "17976931348623157", "17976931348623158", "17976931348623159"}) +
			strings.Repeat("0", 285+g.r.Intn(30)) + "." + g.digits(g.r.Intn(3))
	case 1: // close to nothing
		return sign + "0." + strings.Repeat("0", 300+g.r.Intn(30)) + g.digits(1+g.r.Intn(20))
	case 2: // with zeros in front
		return sign + strings.Repeat("0", g.r.Intn(400)) + g.digits(1+g.r.Intn(20)) + "." + g.digits(g.r.Intn(20))
	case 3:
		return sign + g.digits(1+g.r.Intn(40)) + "." + g.digits(g.r.Intn(40))
	}
	for i := 0; i < 5; i++ {
		s := hardNumber(g.r)
		if strings.Contains(s, ".") && !strings.ContainsAny(s, "eEIN") {
			return s
		}
	}
	f := new(big.Float).SetPrec(2000).SetFloat64(float64(g.r.Int63()) * math.Pow(2, float64(g.r.Intn(90)-80)))
	f.Mul(f, big.NewFloat(1+math.Pow(2, -53))) // half way between two floats
	s := f.Text('f', 150)
	if g.p(60) {
		s = strings.TrimRight(s, "0") + pick(g.r, []string{"", "1"})
	}
	return sign + s
}

func (g *sqlGen) hexDigits(n int) string {
	s := make([]byte, n)
	for i := range s {
		s[i] = "0123456789abcdefABCDEF"[g.r.Intn(22)]
	}
	return string(s)
}

// escape is one of any number.
func (g *sqlGen) escape() string {
	switch g.r.Intn(6) {
	case 0:
		return `\x` + g.hexDigits(2)
	case 1:
		return `\u` + g.hexDigits(4)
	case 2:
		return `\u00` + g.hexDigits(2)
	case 3:
		return `\U000` + pick(g.r, []string{"0", "0", "1"}) + g.hexDigits(4)
	case 4:
		return fmt.Sprintf(`\%03o`, g.r.Intn(256))
	}
	for { // any other character
		if r := rune(1 + g.r.Intn(255)); !strings.ContainsRune("01234567xuU", r) {
			return `\` + string(r)
		}
	}
}

// strText is what may be between the quotes of a string.
func (g *sqlGen) strText(esc bool) string {
	var b strings.Builder
	for n := g.r.Intn(6); n > 0; n-- {
		if esc && g.p(25) {
			b.WriteString(g.escape())
			continue
		}
		if esc && g.p(50) {
			b.WriteString(pick(g.r, []string{`\n`, `\t`, `\\`, `\'`, `\a`, `\b`, `\f`, `\r`, `\v`, `\"`, `\x41`, `\xfF`,
				`\x00`, `\u00e9`, `\u4e16`, `\U0001F600`, `\101`, `\377`, `\000`, `\z`, `\é`, `\9`, `\8`, `\x7f`, `\u0041`,
				`\200`, `\x80`, `\x9`, `\x9g`, `\07`, `\08`, `\u12`, `\U00110000`, `\U0010ffff`, `\ud800`, `\477`,
				`\u07ff`, `\u0800`, `\uffff`}))
			continue
		}
		b.WriteString(pick(g.r, []string{"a", "b", "C", " ", "''", "--", "/*", ";", "\n", "\t", "é", "世", "\U0001F600", `"`,
			"`", "x'", "0", "e", "", `\`, "\\n", "''", "' '"[:1] + "'"}))
	}
	return b.String()
}

func (g *sqlGen) str() string {
	s := ""
	if g.profile == "C35" { // only what ends where it should
		return pick(g.r, []string{"", "e", "E"}) + "'" + pick(g.r, []string{"", "a", "it''s", "--", "/*", ";", "A B", "é", "*/"}) + "'"
	}
	switch weighted(g.r, 6, 2, 1) {
	case 0:
		s = "'" + pick(g.r, []string{"", "a", "abc", "it''s", "''", "A b", "é", "-- no", "/* no */", ";", `\n`, `a\`}) + "'"
	case 1:
		s = pick(g.r, []string{"e", "E"}) + "'" + g.strText(true) + "'"
	case 2:
		s = "'" + g.strText(false) + "'"
	}
	for g.p(8) { // continued
		s += pick(g.r, []string{"\n", " \n ", "\t\r", "\r\n", "\n\n"}) + "'" + g.strText(s[0] != '\'') + "'"
	}
	return s
}

func (g *sqlGen) bytes() string {
	if g.profile == "C35" {
		return pick(g.r, []string{"x'00ff'", "X'Fe'", "b'a''b'", `b'\x41'`, "b'--'", "x''"})
	}
	if g.p(50) {
		s := pick(g.r, []string{"x", "X"}) + "'"
		for n := g.r.Intn(4); n > 0; n-- {
			s += pick(g.r, []string{"00", "ff", "Fe", "7F", "80", "a1", "12", "9B"})
		}
		if g.p(4) {
			s += pick(g.r, []string{"1", "g0", "0g", " 00"})
		}
		return s + "'"
	}
	return "b'" + g.strText(true) + "'"
}

func (g *sqlGen) literal() {
	switch weighted(g.r, 6, 2, 4, 1, 2) {
	case 0:
		g.t(g.integer())
	case 1:
		g.t(g.float())
	case 2:
		g.t(g.str())
	case 3:
		g.t(g.bytes())
	case 4:
		g.t(pick(g.r, []string{"NULL", "TRUE", "FALSE"}))
	}
}

// Expressions.

func (g *sqlGen) nested(f func()) {
	g.depth--
	f()
	g.depth++
}

func (g *sqlGen) expr() {
	n := 1
	more := 30
	if g.profile == "C29" {
		more = 62
	}
	for n < 9 && g.p(more) {
		n++
	}
	g.exprOf(n)
}

func (g *sqlGen) exprOf(n int) {
	for i := 0; i < n; i++ {
		g.operand()
		if g.depth > 0 && g.p(4) {
			g.nested(func() {
				g.opt(30, "NOT")
				g.t("IN")
				g.query()
			})
		}
		if i == n-1 {
			break
		}
		op := pick(g.r, sqlBinary)
		if g.depth > 0 && g.p(5) {
			g.nested(func() {
				g.t(pick(g.r, []string{"=", "<>", "<", "<=", ">", ">=", "AND", "OR", "+"}),
					pick(g.r, []string{"ANY", "SOME", "ALL"}))
				g.query()
			})
		}
		g.t(op)
	}
}

func (g *sqlGen) operand() {
	for g.p(15) {
		g.t(pick(g.r, []string{"-", "NOT", "-"}))
	}
	n := 10
	if g.depth <= 0 {
		n = 0
	}
	q := n / 8
	if g.profile == "C33" {
		q = n / 4
	}
	switch weighted(g.r, 20, 20, n, n/2, q, 1) {
	case 0:
		g.literal()
	case 1:
		g.id()
		for g.p(15) {
			g.t(".")
			g.id()
		}
	case 2:
		g.t("(")
		g.nested(g.expr)
		g.t(")")
	case 3:
		g.call()
	case 4:
		g.nested(func() {
			g.opt(40, "EXISTS")
			g.query()
		})
	case 5:
		g.t("$1")
	}
	for g.p(7) {
		g.t("IS")
		g.opt(40, "NOT")
		g.t("NULL")
	}
}

func (g *sqlGen) call() {
	if g.p(15) {
		g.t(pick(g.r, []string{"count", "COUNT", `"count"`, "Count", `"COUNT"`, "sum"}), "(", "*", ")")
		return
	}
	g.t(pick(g.r, []string{"f", "abs", "concat", "count", "g1", `"F"`, "text"}), "(")
	if g.p(85) {
		g.nested(func() { g.list(g.count(3), g.expr) })
	}
	g.t(")")
}

// Queries.

func (g *sqlGen) query() {
	g.t("(")
	switch weighted(g.r, 6, 3, 1, 2) {
	case 0:
		g.t("SELECT")
		g.selectFrom()
	case 1:
		g.values(2)
	case 2:
		g.show()
	case 3:
		g.t("TABLE")
		g.table()
	}
	g.t(")")
}

func (g *sqlGen) values(max int) {
	g.t("VALUES")
	n := g.count(3)
	g.list(g.count(max), func() {
		k := n
		if g.p(4) {
			k += g.r.Intn(3) - 1
		}
		g.t("(")
		g.list(max1(k), g.expr)
		g.t(")")
	})
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func (g *sqlGen) alias(percent int) {
	if g.p(percent) {
		g.opt(60, "AS")
		g.id()
	}
}

func (g *sqlGen) selectFrom() {
	if g.p(20) {
		g.t("*")
	} else {
		g.list(g.count(4), func() {
			if g.p(12) {
				g.t(g.name(), ".", "*")
			} else {
				g.nested(g.expr)
				g.alias(35)
			}
		})
	}
	if g.opt(60, "FROM") {
		g.fromList()
	}
	if g.opt(35, "WHERE") {
		g.nested(g.expr)
	}
	if g.opt(15, "GROUP", "BY") {
		g.list(g.count(3), func() { g.nested(g.expr) })
	}
	if g.opt(12, "HAVING") {
		g.nested(g.expr)
	}
	if g.opt(20, "ORDER", "BY") {
		g.list(g.count(3), g.keyCol)
	}
}

func (g *sqlGen) keyCol() {
	g.id()
	if g.p(40) {
		g.t(pick(g.r, []string{"ASC", "DESC"}))
	}
}

func (g *sqlGen) fromList() { g.list(g.count(3), g.fromItem) }

func (g *sqlGen) fromItem() {
	k := 4
	if g.depth <= 0 {
		k = 0
	}
	switch weighted(g.r, 12, 3, k, k/2) {
	case 0:
		g.table()
		g.alias(30)
	case 1:
		g.table()
		g.t("@")
		g.id()
		g.alias(30)
	case 2:
		g.nested(g.query)
		g.alias(96)
		if g.p(30) {
			g.t("(")
			g.ids(3)
			g.t(")")
		}
	case 3:
		g.t("(")
		g.nested(g.fromList)
		g.t(")")
	}
	join := 22
	if g.profile == "C34" {
		join = 35
	}
	for g.p(join) {
		kind := g.r.Intn(6)
		switch kind {
		case 0:
			g.t("JOIN")
		case 1:
			g.t("INNER", "JOIN")
		case 2:
			g.t("CROSS", "JOIN")
		default:
			g.t([]string{"LEFT", "RIGHT", "FULL"}[kind-3])
			g.opt(40, "OUTER")
			g.t("JOIN")
		}
		g.nested(g.fromItem)
		switch weighted(g.r, 6, 3, 1) {
		case 0:
			if kind != 2 {
				g.t("ON")
				g.nested(g.expr)
			}
		case 1:
			if kind != 2 {
				g.t("USING", "(")
				g.ids(4)
				g.t(")")
			}
		case 2: // the wrong one or none
			if g.p(20) {
				g.t("ON")
				g.nested(g.expr)
			}
		}
	}
}

func (g *sqlGen) show() {
	g.t("SHOW")
	switch w := pick(g.r, []string{"columns", "CONSTRAINTS", "Tables", "schemas", "config", "databases", "DATABASE",
		"schema", `"tables"`, "a", `"COLUMNS"`, "FROM"}); strings.ToLower(w) {
	case "columns", "constraints":
		g.t(w, "FROM")
		g.table()
	case "tables", `"tables"`:
		g.t(w)
		if g.opt(60, "FROM") {
			g.schema()
		}
	case "schemas":
		g.t(w)
		if g.opt(50, "FROM") {
			g.id()
		}
	default:
		g.t(w)
	}
}

// Definitions.

func (g *sqlGen) columnType() {
	w := pick(g.r, sqlTypeWords)
	g.t(w)
	if w == "DOUBLE" {
		g.opt(50, "PRECISION")
	}
	sized := strings.Contains(w, "CHAR") || strings.Contains(w, "BINARY") || g.p(3)
	if w == "TEXT" || w == "BLOB" || w == "BYTES" || w == "BYTEA" {
		sized = g.p(30)
	}
	if sized && g.p(60) {
		g.t("(", pick(g.r, []string{"1", "10", "255", "0", "65536", "4294967294", "4294967295", "70000", "-1", "1000000",
			"2147483648", "007", "10.0"}), ")")
	}
}

func (g *sqlGen) constraintName() { _ = g.opt(25, "CONSTRAINT") && g.idOK() }

func (g *sqlGen) idOK() bool {
	g.id()
	return true
}

func (g *sqlGen) references(max int) {
	g.t("REFERENCES")
	g.table()
	if g.p(60) {
		g.t("(")
		g.ids(max)
		g.t(")")
	}
	for _, on := range []string{"DELETE", "UPDATE"} {
		for g.p(25) {
			if g.p(20) {
				on = pick(g.r, []string{"DELETE", "UPDATE"})
			}
			g.t("ON", on)
			g.t(pick(g.r, [][]string{{"NO", "ACTION"}, {"RESTRICT"}, {"CASCADE"}, {"SET", "NULL"}, {"SET", "DEFAULT"}})...)
		}
	}
}

func (g *sqlGen) key() {
	g.t("(")
	g.list(g.count(3), g.keyCol)
	g.t(")")
}

func (g *sqlGen) check() {
	g.t("CHECK", "(")
	g.nested(g.expr)
	g.t(")")
}

func (g *sqlGen) column() {
	g.id()
	g.columnType()
	more := 35
	if g.profile == "C34" {
		more = 25
	}
	for g.p(more) {
		g.constraintName()
		switch g.r.Intn(6) {
		case 0:
			g.t("DEFAULT")
			g.nested(g.expr)
		case 1:
			g.t("NOT", "NULL")
		case 2:
			g.t("PRIMARY", "KEY")
		case 3:
			g.t("UNIQUE")
		case 4:
			g.check()
		case 5:
			max := 1
			if g.p(10) {
				max = 2
			}
			g.references(max)
		}
	}
}

func (g *sqlGen) foreignKey() {
	g.t("FOREIGN", "KEY", "(")
	g.ids(3)
	g.t(")")
	g.references(3)
}

func (g *sqlGen) createTable() {
	g.t("CREATE", "TABLE")
	g.opt(20, "IF", "NOT", "EXISTS")
	g.table()
	g.t("(")
	n := g.count(5)
	i := 0
	names := []string{"c1", "c2", "c3", "c4", "c5", "c6", "c7"}
	g.list(n+g.r.Intn(3), func() {
		if i < n {
			at := len(g.out)
			g.column()
			if !g.p(8) { // mostly different columns
				if g.profile == "C34" {
					g.out[at] = []string{"a", "b", "c", "d", "e_f"}[i]
				} else if g.p(90) {
					g.out[at] = names[i]
				}
			}
		} else {
			g.constraintName()
			switch g.r.Intn(4) {
			case 0:
				g.t("PRIMARY", "KEY")
				g.key()
			case 1:
				g.t("UNIQUE")
				g.key()
			case 2:
				g.check()
			case 3:
				g.foreignKey()
			}
		}
		i++
	})
	g.t(")")
}

func (g *sqlGen) ifExists() { g.opt(30, "IF", "EXISTS") }

func (g *sqlGen) alterTable() {
	g.t("ALTER", "TABLE")
	g.table()
	g.list(g.count(3), func() {
		switch g.r.Intn(3) {
		case 0:
			g.t("ADD")
			g.constraintName()
			g.foreignKey()
		case 1:
			g.t("DROP", "CONSTRAINT")
			g.ifExists()
			g.id()
		case 2:
			g.t("ALTER")
			g.opt(40, "COLUMN")
			g.id()
			g.t("DROP")
			g.t(pick(g.r, [][]string{{"DEFAULT"}, {"NOT", "NULL"}})...)
		}
	})
}

func (g *sqlGen) createIndex() {
	g.t("CREATE")
	g.opt(40, "UNIQUE")
	g.t("INDEX")
	g.opt(20, "IF", "NOT", "EXISTS")
	g.id()
	g.t("ON")
	g.table()
	if g.opt(25, "USING") {
		g.t(pick(g.r, []string{"btree", "BTREE", `"btree"`, "hash"}))
	}
	g.key()
}

func (g *sqlGen) createDatabase() {
	g.t("CREATE", "DATABASE")
	g.id()
	if g.opt(50, "WITH") {
		for i := g.count(3); i > 0; i-- {
			g.t(pick(g.r, []string{"path", "engine", "x", `"Opt"`, "size", "PATH", "a", "b2"}))
			g.opt(60, "=")
			switch g.r.Intn(4) {
			case 0:
				g.t(g.str())
			case 1:
				g.t(g.integer())
			case 2:
				g.id()
			case 3:
				g.t(pick(g.r, []string{g.float(), g.bytes(), "NULL", "TRUE"}))
			}
		}
	}
}

// Statements on rows.

func (g *sqlGen) value() {
	if g.p(10) {
		g.t("DEFAULT")
	} else {
		g.nested(g.expr)
	}
}

func (g *sqlGen) insert() {
	g.t("INSERT", "INTO")
	g.table()
	if g.p(55) {
		g.t("(")
		g.ids(4)
		g.t(")")
	}
	g.t("VALUES")
	g.list(g.count(4), func() {
		g.t("(")
		g.list(g.count(4), g.value)
		g.t(")")
	})
}

func (g *sqlGen) update() {
	g.t("UPDATE")
	g.table()
	g.t("SET")
	g.list(g.count(4), func() {
		g.id()
		g.t("=")
		g.value()
	})
	g.where()
}

func (g *sqlGen) where() {
	if g.opt(50, "WHERE") {
		g.nested(g.expr)
	}
}

func (g *sqlGen) setUse() {
	if g.p(30) {
		g.t("USE")
	} else {
		g.t("SET", pick(g.r, []string{"DATABASE", "schema", "a", `"Var"`, "text"}), pick(g.r, []string{"=", "TO", "=", "=="}))
	}
	switch weighted(g.r, 5, 2, 1, 1) {
	case 0:
		g.t(g.str())
	case 1:
		g.t(g.integer())
	case 2:
		g.t(pick(g.r, []string{"TRUE", "FALSE", "NULL", "DEFAULT"}))
	case 3:
		if g.p(50) {
			g.t(g.float())
		} else {
			g.expr()
		}
	}
}

func (g *sqlGen) copy() {
	g.t("COPY")
	g.table()
	if g.p(40) {
		g.t("(")
		g.ids(4)
		g.t(")")
	}
	g.t("FROM", "STDIN")
	if g.opt(40, "DELIMITER") {
		g.t(pick(g.r, []string{"','", "'|'", "e'\\t'", "' '", "':'", "''''", "','", "'ab'", "''", "'é'", "1", "x'41'"}))
	}
}

func (g *sqlGen) drop() {
	switch g.r.Intn(5) {
	case 0, 1:
		g.t("DROP", "TABLE")
		g.ifExists()
		g.list(g.count(4), g.table)
		if g.p(40) {
			g.t(pick(g.r, []string{"CASCADE", "RESTRICT"}))
		}
	case 2:
		g.t("DROP", "INDEX")
		g.ifExists()
		g.id()
		g.t("ON")
		g.table()
	case 3:
		g.t("DROP", "DATABASE")
		g.ifExists()
		g.id()
	case 4:
		g.t("DROP", "SCHEMA")
		g.ifExists()
		g.schema()
	}
}

func (g *sqlGen) selectStmt() {
	g.t("SELECT")
	g.selectFrom()
}

func (g *sqlGen) any() {
	switch weighted(g.r, 2, 1, 6, 3, 2, 3, 3, 5, 3, 8, 3, 3, 4, 3, 2) {
	case 0:
		g.t(pick(g.r, [][]string{{"BEGIN"}, {"START", "TRANSACTION"}, {"COMMIT"}, {"ROLLBACK"}})...)
	case 1:
		g.t("CREATE", "SCHEMA")
		g.schema()
	case 2:
		g.createTable()
	case 3:
		g.alterTable()
	case 4:
		g.createIndex()
	case 5:
		g.createDatabase()
	case 6:
		g.drop()
	case 7:
		g.insert()
	case 8:
		g.update()
	case 9:
		g.selectStmt()
	case 10:
		g.t("DELETE", "FROM")
		g.table()
		g.where()
	case 11:
		g.show()
	case 12:
		g.values(3)
	case 13:
		g.setUse()
	case 14:
		g.t("EXPLAIN")
		g.opt(40, "VERBOSE")
		g.selectStmt()
	}
}

// statement writes one statement; no COPY, as what follows one is its data.
func (g *sqlGen) statement() []string {
	g.out = nil
	g.depth = 1 + g.r.Intn(3)
	switch g.profile {
	case "C29":
		switch weighted(g.r, 4, 4, 2, 1, 1, 1) {
		case 0:
			g.t("VALUES", "(")
			g.list(g.count(3), g.expr)
			g.t(")")
		case 1:
			g.t("SELECT")
			g.list(g.count(2), func() { g.expr(); g.alias(20) })
		case 2:
			g.t("SELECT", "*", "FROM", "t", "WHERE")
			g.expr()
		case 3:
			g.t("CREATE", "TABLE", "t", "(", "c", "INT", "DEFAULT")
			g.expr()
			g.opt(50, "NOT", "NULL")
			g.t(")")
		case 4:
			g.t("UPDATE", "t", "SET", "c", "=")
			g.expr()
			g.where()
		case 5:
			g.t("SELECT", "*", "FROM", "t", "JOIN", "u", "ON")
			g.expr()
			g.t("GROUP", "BY")
			g.expr()
			g.t("HAVING")
			g.expr()
		}
	case "C32":
		g.t("VALUES", "(")
		g.list(1+g.r.Intn(5), func() {
			switch weighted(g.r, 3, 3, 5, 4, 2) {
			case 0:
				g.t(g.integer())
			case 1:
				g.t(g.float())
			case 2:
				g.t(g.str())
			case 3:
				g.t(g.bytes())
			case 4:
				g.t(pick(g.r, sqlSomeNames))
			}
			for g.p(15) { // next to others
				g.t(pick(g.r, []string{"-", "+", "*", "||", "=", "/"}))
				g.literal()
			}
		})
		g.t(")")
	case "C34":
		switch weighted(g.r, 10, 3, 3, 3, 2, 2) {
		case 0:
			g.createTable()
		case 1:
			g.insert()
		case 2:
			g.selectStmt()
		case 3:
			g.values(3)
		case 4:
			g.createIndex()
		case 5:
			g.alterTable()
		}
	default:
		g.any()
	}
	return g.out
}

// anyToken is any token at all.
func (g *sqlGen) anyToken() string {
	switch weighted(g.r, 8, 6, 6, 4, 2) {
	case 0:
		return pick(g.r, sqlReserved)
	case 1:
		return g.name()
	case 2:
		return pick(g.r, sqlPunct)
	case 3:
		n := len(g.out)
		g.literal()
		s := g.out[n]
		g.out = g.out[:n]
		return s
	}
	return pick(g.r, sqlBadish)
}

// mutate makes small changes.
func (g *sqlGen) mutate(toks []string) []string {
	s := append([]string{}, toks...)
	for n := g.count(3); n > 0 && len(s) > 0; n-- {
		i := g.r.Intn(len(s))
		switch g.r.Intn(6) {
		case 0:
			s = append(s[:i:i], s[i+1:]...)
		case 1:
			s = append(s[:i+1:i+1], s[i:]...)
		case 2:
			s[i] = g.anyToken()
		case 3:
			s = append(s[:i:i], append([]string{g.anyToken()}, s[i:]...)...)
		case 4:
			j := g.r.Intn(len(s))
			s[i], s[j] = s[j], s[i]
		case 5:
			s = s[:i]
		}
	}
	return s
}

// Layout.

func (g *sqlGen) blank() string {
	return pick(g.r, []string{" ", "  ", "\n", "\t", "\r\n", " \n ", "\v", "\f", "\u00a0", "\u0085", "\r", "\n\n"})
}

func (g *sqlGen) comment() string {
	text := pick(g.r, []string{"", " c ", "--", "it's", `"`, ";", "/*", "/", "*", " a * b / c ", "e'", "select 1;", "é世", "**",
		"/ *"})
	if g.p(50) {
		return "--" + text + pick(g.r, []string{"\n", "\r\n"})
	}
	return "/*" + strings.ReplaceAll(text, "*/", "") + pick(g.r, []string{"", "\n", "*", " "}) + "*/"
}

func isPunct(t string) bool {
	switch t {
	case "(", ")", ",", ".", ";", "@":
		return true
	}
	return false
}

func isOp(t string) bool {
	switch t {
	case "+", "-", "*", "/", "%", "||", "=", "==", "<>", "!=", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "!":
		return true
	}
	return false
}

// separator is something between two tokens which leaves them as they are.
func (g *sqlGen) separator(a, b string, wild int) string {
	may := (isPunct(a) || isPunct(b) || isOp(a) != isOp(b)) && a != "-" && a != "+" && b[0] != '-' && b[0] != '+'
	if isOp(a) && isOp(b) {
		may = false
	}
	// A number and a point are a number.
	if d := strings.TrimLeft(a, "+-"); b == "." && d != "" && d[0] >= '0' && d[0] <= '9' || a == "." && b[0] >= '0' && b[0] <= '9' {
		may = false
	}
	if may && g.p(50) {
		return ""
	}
	if !g.p(wild) {
		return " "
	}
	s := ""
	if a == "-" || a[0] == '-' || a[0] == '+' || !may {
		s = g.blank()
	}
	if a[len(a)-1] == '\'' && b[0] == '\'' {
		return " " // and not continued
	}
	for g.p(50) {
		if g.p(60) {
			s += g.blank()
		} else {
			s += g.comment()
		}
	}
	if s == "" {
		s = g.blank()
	}
	if b[0] == '-' || b[0] == '+' || b == "*" || b == "/" {
		s += " "
	}
	return s
}

func (g *sqlGen) join(toks []string, wild int) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			b.WriteString(g.separator(toks[i-1], t, wild))
		}
		b.WriteString(t)
	}
	return b.String()
}

// recase changes the case of the letters of words.
func (g *sqlGen) recase(toks []string) []string {
	s := make([]string, len(toks))
	for i, t := range toks {
		s[i] = t
		if strings.ContainsAny(t, "'\"`[") || t == "" {
			continue
		}
		how := g.r.Intn(4)
		s[i] = strings.Map(func(r rune) rune {
			lower := r >= 'a' && r <= 'z' || r >= 'à' && r <= 'þ' && r != '÷'
			upper := r >= 'A' && r <= 'Z' || r >= 'À' && r <= 'Þ' && r != '×'
			up := how == 0 || how == 2 && g.p(50)
			if how == 3 {
				return r
			} else if lower && up {
				return r - 32
			} else if upper && !up {
				return r + 32
			}
			return r
		}, t)
	}
	return s
}

// simple writes a token sequence plainly with some variety.
func (g *sqlGen) plain(toks []string) string { return g.join(g.recase(toks), 12) }

// Profiles.

type sqlRec struct {
	r  *rand.Rand
	sp *sqlParser
	tw *traceWriter
}

func (sr *sqlRec) script(text string, take []int) tree {
	x := []rune(text)
	if sr.sp.cut && len(x) > 0 {
		x = x[:sr.r.Intn(len(x)+1)]
	}
	rr := &runesReader{x: x, cut: sr.sp.cut}
	if rr.cut {
		rr.once, rr.err = sr.r.Intn(2) == 0, sr.r.Intn(len(errCuts))
	}
	res := sr.sp.parse(rr, len(x), take)
	sr.tw.line(map[string]any{"op": "script", "text": runeInts(x), "sql": string(x), "take": orEmpty(take), "res": res,
		"cut": sr.sp.cut})
	return res
}

func orEmpty(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}

func (sr *sqlRec) any(text string, res any, n int) {
	show := text
	if len(show) > 300 {
		show = show[:300] + fmt.Sprintf("... %d bytes", len(text))
	}
	sr.tw.line(map[string]any{"op": "any", "sql": strings.ToValidUTF8(show, "?"), "len": n, "res": res})
}

func (g *sqlGen) data() string {
	var b strings.Builder
	for n := g.r.Intn(5); n > 0; n-- {
		for k := g.r.Intn(6); k > 0; k-- {
			b.WriteString(pick(g.r, []string{"1", "abc", "\t", ",", "\\N", ";", "'", "--", "/*", "select 1;", "\r", "é", " ", "\\",
				"\"", "(", "\u00a0"}))
		}
		b.WriteString("\n")
	}
	if g.p(70) {
		b.WriteString("\\.\n")
	}
	return b.String()
}

// alike reports whether two statements are of one kind.
func alike(a, b []string) bool {
	return len(a) > 1 && len(b) > 1 && strings.EqualFold(a[0], b[0]) && strings.EqualFold(a[1], b[1])
}

func (g *sqlGen) segments(sr *sqlRec, n int) {
	var b strings.Builder
	var last []string
	for i := 0; i < n; i++ {
		switch weighted(g.r, 6, 5, 2) {
		case 0:
			stmt := g.statement()
			if g.p(60) { // like the one before
				for k := 0; k < 60 && !alike(stmt, last); k++ {
					stmt = g.statement()
				}
			}
			last = stmt
			b.WriteString(g.plain(stmt))
		case 1:
			b.WriteString(g.plain(g.mutate(g.statement())))
		case 2:
			b.WriteString(pick(g.r, []string{"", " ", "-- nothing\n", "/* nothing */", "?", "'"[:0], "\n"}))
		}
		if i < n-1 || g.p(70) {
			b.WriteString(";")
		}
		b.WriteString(pick(g.r, []string{"", " ", "\n", "-- c\n"}))
	}
	sr.script(b.String(), nil)
}

func (g *sqlGen) copies(sr *sqlRec) {
	var b strings.Builder
	var take []int
	for k := g.count(4); k > 0; k-- {
		g.depth = 1
		if g.p(75) {
			g.out = nil
			g.copy()
			wild := pick(g.r, []int{0, 0, 15, 60})
			b.WriteString(g.join(g.recase(g.out), wild))
			b.WriteString(pick(g.r, []string{"", "", " ", "\n", "/* c */"}))
			b.WriteString(";")
			b.WriteString(pick(g.r, []string{"\n", "\n", " \n", "-- c\n", " /* c */\n", " select 1;\n", "\r\n", "", "\n\n"}))
			data := g.data()
			b.WriteString(data)
			switch g.r.Intn(3) {
			case 0:
				take = append(take, len([]rune(data)))
			case 1:
				take = append(take, g.r.Intn(len([]rune(data))+3))
			case 2:
				take = append(take, g.r.Intn(4))
			}
		} else {
			b.WriteString(g.plain(g.statement()))
			b.WriteString(";" + g.blank())
		}
	}
	sr.script(b.String(), take)
}

func (g *sqlGen) garbage() []rune {
	var x []rune
	n := g.r.Intn(60)
	if g.p(5) {
		n = g.r.Intn(600)
	}
	for len(x) < n {
		switch weighted(g.r, 5, 5, 2, 1, 1) {
		case 0:
			x = append(x, []rune(g.anyToken())...)
			x = append(x, ' ')
		case 1:
			x = append(x, rune(32+g.r.Intn(95)))
		case 2:
			x = append(x, pick(g.r, []rune("'\"`[]();-+*/.,$@xXeEbB\\\n")))
		case 3:
			x = append(x, pick(g.r, []rune{0, 1, 0x7f, 0x80, 0x85, 0xa0, 0xff, 0x100, 0x130, 0x3a3, 0x660, 0x1680, 0x2028,
				0x2160, 0x3000, 0x4e16, 0xfeff, 0xfffd, 0x1F600, 0x10FFFF}))
		case 4:
			x = append(x, []rune(g.plain(g.statement()))...)
		}
	}
	return x
}

// deep is a text with something nested or repeated n times.
func (g *sqlGen) deep(n int) string {
	rep := strings.Repeat
	switch g.r.Intn(22) {
	case 0:
		return "select " + rep("(", n) + "1" + rep(")", n)
	case 1:
		return "select " + rep("- ", n) + "1"
	case 2:
		return "select " + rep("not ", n) + "1"
	case 3:
		return "select " + rep("f(", n) + "1" + rep(")", n)
	case 4:
		return "select " + rep("(select ", n) + "1" + rep(")", n)
	case 5:
		return "select * from " + rep("(", n) + "t" + rep(")", n)
	case 6:
		return "select * from " + rep("t join ", n) + "t " + rep("on a ", n)
	case 7:
		return "select * from " + rep("(select * from ", n) + "t" + rep(") a", n)
	case 8:
		return rep("(", n)
	case 9:
		return "select " + rep("a.", n) + "b"
	case 10:
		return "values " + rep("(1),", n) + "(1)"
	case 11:
		return "select '" + rep("'' ", n) + "'"
	case 12:
		return rep(";", n)
	case 13:
		return "select /*" + rep("*", n)
	case 14:
		return "select 1" + rep(" is null", n)
	case 15:
		return "select a in " + rep("(select a in ", n) + "(values (1))" + rep(")", n)
	case 16:
		return "create table t (a int " + rep("check (", n) + "1" + rep(")", n)
	case 17:
		return "select " + rep("exists (select ", n) + "1" + rep(")", n)
	case 18:
		return "explain " + rep("select (", n)
	case 19:
		return "select 'a'" + rep("\n'a'", n)
	case 20:
		return "select " + rep("a", n) + ", " + rep("9", n) + "." + rep("9", n)
	}
	return rep("select 1 + ;", n)
}

func sqlRandom(profile string, seed int64, n int, path string) {
	r := rand.New(rand.NewSource(seed))
	sr := &sqlRec{r: r, sp: &sqlParser{cut: profile == "C37"}, tw: newTrace(path)}
	sr.sp.clk = newClock(func() {
		sr.tw.line(map[string]any{"op": "hang", "sql": sr.sp.text})
		sr.tw.close()
	})
	g := &sqlGen{r: r, profile: profile}
	for i := 0; i < n; i++ {
		switch profile {
		case "C29", "C32", "C33", "C34":
			toks := g.statement()
			if g.p(6) {
				toks = g.mutate(toks)
			}
			sr.script(g.plain(toks), nil)
		case "C30":
			g.segments(sr, 2+g.r.Intn(7))
		case "C37":
			if g.p(75) {
				g.segments(sr, 1+g.r.Intn(3))
			} else if g.p(50) {
				sr.script(string(g.garbage()), nil)
			} else {
				g.copies(sr)
			}
		case "C31":
			if g.p(4) {
				text := g.deep(pick(r, []int{1, 2, 10, 100, 1000, 3000}))
				x := []rune(text)
				sr.any(text, kinds(sr.sp.parse(&runesReader{x: x}, len(x), nil)), len(x))
				continue
			}
			x := g.garbage()
			if g.p(25) { // whatever bytes there are
				b := []byte(string(x))
				for k := g.r.Intn(5); k >= 0 && len(b) > 0; k-- {
					b[g.r.Intn(len(b))] = byte(g.r.Intn(256))
				}
				n := len([]rune(string(b)))
				sr.any(string(b), kinds(sr.sp.parse(strings.NewReader(string(b)), n, nil)), n)
			} else if g.p(30) {
				for k := range x {
					if g.p(3) {
						x[k] = pick(r, []rune{-1, 0xD800, 0x110000, 0x7fffffff, -0x80000000, 0xDFFF})
					}
				}
				sr.any(string(x), kinds(sr.sp.parse(&runesReader{x: x}, len(x), nil)), len(x))
			} else {
				sr.script(string(x), nil)
			}
		case "C35":
			var toks []string
			for k := g.count(2); k > 0; k-- {
				toks = append(toks, g.statement()...)
				if g.p(8) {
					toks = g.mutate(toks)
				}
				toks = append(toks, ";")
			}
			if hard(toks) {
				continue
			}
			var texts, show, res tree
			for k := 0; k < 3; k++ {
				wild := []int{0, 40, 80}[k]
				ts := toks
				if k > 0 {
					ts = g.recase(toks)
				}
				text := g.join(ts, wild)
				x := []rune(text)
				show = append(show, text)
				texts = append(texts, runeInts(x))
				res = append(res, sr.sp.parse(&runesReader{x: x}, len(x), nil))
			}
			sr.tw.line(map[string]any{"op": "layouts", "texts": texts, "sql": show, "res": res})
		case "C36":
			g.copies(sr)
		default:
			fatal("unknown profile", profile)
		}
	}
	sr.tw.close()
}

// sqlDeep parses deeply nested texts, each by itself: the stack must not overflow.
func sqlDeep(seed int64, n int, path string) {
	sr := &sqlRec{tw: newTrace(path)}
	g := &sqlGen{r: rand.New(rand.NewSource(seed))}
	for i := 0; i < n; i++ {
		text := g.deep(pick(g.r, []int{150000, 300000, 700000}))
		sr.any(text, inChild(text), len([]rune(text)))
	}
	sr.tw.close()
}

// hard is whether tokens may be others when they are laid out differently.
func hard(toks []string) bool {
	for i, t := range toks {
		if t == "" || t == "$ " || t == "[]" || t == `"a""` || strings.ContainsAny(t, "\n\r") && strings.Contains(t, "'") {
			return true
		}
		if i > 0 && (strings.HasSuffix(toks[i-1], "'") || strings.HasSuffix(toks[i-1], "$x")) &&
			strings.Contains(t, "'") {
			return true
		}
	}
	return false
}
