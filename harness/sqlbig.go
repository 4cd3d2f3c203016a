package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Scripts of which one part is large.

// size is how many of something there are: around the powers of two.
func (g *sqlGen) size(max int) int {
	n := 16
	for n*2 <= max && g.p(75) {
		n *= 2
	}
	return n + pick(g.r, []int{-1, 0, 1, 2, 1 + g.r.Intn(n/2)})
}

// numbered are n different names, or one of them is there twice.
func (g *sqlGen) numbered(prefix string, n, twice int) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = fmt.Sprintf("%s%d", prefix, i)
	}
	if g.p(twice) {
		s[g.r.Intn(n)] = s[g.r.Intn(n)]
	}
	return s
}

func (g *sqlGen) commas(s []string) {
	i := -1
	g.list(len(s), func() { i++; g.t(s[i]) })
}

// small is an expression which is mostly small.
func (g *sqlGen) small() {
	switch g.r.Intn(5) {
	case 0:
		g.t(fmt.Sprint(g.r.Intn(300)))
	case 1:
		g.t("'a'")
	case 2:
		g.t("a", "+", "1")
	case 3:
		g.t("-", "b")
	case 4:
		g.t("NULL")
	}
}

func (g *sqlGen) chain(n int) {
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(pick(g.r, sqlBinary))
		}
		if g.p(10) {
			g.t(pick(g.r, []string{"-", "NOT"}))
		}
		g.t(pick(g.r, []string{"a", "b", "1", "2.5", "TRUE"}))
		if g.p(5) {
			g.t("IS", "NULL")
		}
	}
}

func (g *sqlGen) long(s string, n int) string { return strings.Repeat(s, n/len([]rune(s))+1) }

func (g *sqlGen) bigExpr() {
	switch g.r.Intn(6) {
	case 0, 1:
		g.t("SELECT")
		g.chain(g.size(64))
	case 2:
		g.t("SELECT", "f", "(")
		g.list(g.size(256), g.small)
		g.t(")", "+", "1")
	case 3:
		g.t("SELECT")
		n := g.size(128)
		for i := 0; i < n; i++ {
			g.t("(", "a", pick(g.r, sqlBinary))
		}
		g.t("b")
		for i := 0; i < n; i++ {
			g.t(")")
		}
	case 4:
		g.t("SELECT", "a")
		for i := g.size(64); i > 0; i-- {
			g.t(".", "a")
		}
	case 5:
		op := pick(g.r, sqlBinary)
		g.t("SELECT", "a")
		for i := g.size(128); i > 0; i-- {
			g.t(op, "b")
		}
	}
}

func (g *sqlGen) bigStmt() {
	switch g.r.Intn(14) {
	case 0:
		g.t("VALUES")
		n := g.size(256)
		odd := -1
		if g.p(20) {
			odd = g.r.Intn(n)
		}
		i := 0
		g.list(n, func() {
			g.t("(")
			g.small()
			if i == odd {
				g.t(",", "1")
			}
			g.t(")")
			i++
		})
	case 1:
		g.t("INSERT", "INTO", "t", "(")
		n := g.size(256)
		g.commas(g.numbered("c", n, 20))
		g.t(")", "VALUES", "(")
		g.list(n, func() {
			if g.p(10) {
				g.t("DEFAULT")
			} else {
				g.small()
			}
		})
		g.t(")")
	case 2:
		g.t("INSERT", "INTO", "t", "VALUES")
		g.list(g.size(256), func() {
			g.t("(")
			g.list(1+g.r.Intn(2), g.small)
			g.t(")")
		})
	case 3, 4:
		g.bigTable()
	case 5:
		g.t("CREATE", "INDEX", "i", "ON", "t", "(")
		s := g.numbered("c", g.size(128), 20)
		i := -1
		g.list(len(s), func() {
			i++
			g.t(s[i])
			if g.p(20) {
				g.t(pick(g.r, []string{"ASC", "DESC"}))
			}
		})
		g.t(")")
	case 6:
		g.t("SELECT")
		g.list(g.size(256), func() {
			if g.p(10) {
				g.t("t", ".", "*")
				return
			}
			g.small()
			if g.p(30) {
				g.t("AS", "x")
			}
		})
		g.t("FROM", "t")
	case 7:
		g.t("SELECT", "*", "FROM", "t", "GROUP", "BY")
		g.list(g.size(128), g.small)
		g.t("ORDER", "BY")
		g.list(g.size(128), func() {
			g.id()
			if g.p(30) {
				g.t(pick(g.r, []string{"ASC", "DESC"}))
			}
		})
	case 8:
		g.t("SELECT", "*", "FROM")
		g.list(g.size(128), func() { g.id(); g.opt(30, "AS", "x") })
	case 9:
		g.t("SELECT", "*", "FROM", "t0")
		for i := g.size(64); i > 0; i-- {
			switch g.r.Intn(4) {
			case 0:
				g.t("CROSS", "JOIN", "t")
			case 1:
				g.t(pick(g.r, []string{"LEFT", "RIGHT", "FULL"}), "JOIN", "t", "ON", "a")
			case 2:
				g.t("JOIN", "t", "USING", "(", "a", ")")
			case 3:
				g.t("INNER", "JOIN", "t", "ON", "a", "=", "b")
			}
		}
	case 10:
		g.t("SELECT", "*", "FROM", "t", "JOIN", "u", "USING", "(")
		g.commas(g.numbered("c", g.size(128), 30))
		g.t(")")
	case 11:
		g.t("DROP", "TABLE")
		g.commas(g.numbered("t", g.size(256), 30))
		g.opt(50, "CASCADE")
	case 12:
		g.t("ALTER", "TABLE", "t")
		g.list(g.size(64), func() {
			g.t(pick(g.r, [][]string{{"ALTER", "a", "DROP", "DEFAULT"}, {"DROP", "CONSTRAINT", "c"},
				{"ADD", "FOREIGN", "KEY", "(", "a", ")", "REFERENCES", "u"}})...)
		})
	case 13:
		g.t("UPDATE", "t", "SET")
		g.list(g.size(128), func() { g.id(); g.t("="); g.small() })
	}
}

func (g *sqlGen) bigTable() {
	g.t("CREATE", "TABLE", "t", "(")
	if g.p(60) {
		s := g.numbered("c", g.size(128), 25)
		keys := g.p(50)
		pk := g.r.Intn(len(s) * 2)
		i := -1
		g.list(len(s), func() {
			i++
			g.t(s[i], pick(g.r, []string{"INT", "TEXT", "BOOL"}))
			if i == pk {
				g.t("PRIMARY", "KEY")
			} else if keys && g.p(20) {
				g.t("UNIQUE")
			} else if g.p(10) {
				g.t("NOT", "NULL")
			}
		})
		if g.p(30) {
			g.t(",", "PRIMARY", "KEY", "(", s[g.r.Intn(len(s))], ")")
		}
	} else {
		// Many constraints, or a key of many columns.
		n := g.size(64)
		cols := g.numbered("c", n, 0)
		g.list(n, func() { g.t(cols[0], "INT"); cols = cols[1:] })
		if g.p(50) {
			names := g.numbered("k", n, 30)
			c := g.numbered("c", n, 20)
			for i := range names {
				g.t(",", "CONSTRAINT", names[i])
				switch g.r.Intn(3) {
				case 0:
					g.t("UNIQUE", "(", c[i], ")")
				case 1:
					g.t("CHECK", "(", "a", ")")
				case 2:
					g.t("FOREIGN", "KEY", "(", c[i], ")", "REFERENCES", "u")
				}
			}
		} else {
			g.t(",", pick(g.r, []string{"UNIQUE", "PRIMARY KEY"}), "(")
			g.commas(g.numbered("c", n, 20))
			g.t(")", ",", "UNIQUE", "(")
			g.commas(g.numbered("c", n, 20))
			g.t(")")
		}
	}
	g.t(")")
}

func (g *sqlGen) bigLiteral() {
	n := g.size(1024)
	g.t("VALUES", "(")
	switch g.r.Intn(9) {
	case 0:
		g.t("'" + g.long(pick(g.r, []string{"a", "ab''", "é", "世x", "\U0001F600"}), n) + "'")
	case 1:
		g.t("e'" + g.long(pick(g.r, []string{`\n`, `a\x41`, `\u00e9b`, `\\`, `\101`}), n) + "'")
	case 2:
		g.t("x'" + strings.Repeat(pick(g.r, []string{"00", "fF", "a1"}), n) + pick(g.r, []string{"", "", "0"}) + "'")
	case 3:
		g.t("b'" + g.long(pick(g.r, []string{`\x80`, "a", "é"}), n) + "'")
	case 4:
		g.t(g.long(pick(g.r, []string{"a", "Ab_", "é$1"}), n))
	case 5:
		g.t(`"` + g.long(pick(g.r, []string{"a", "A ", "世", "`"}), n) + `"`)
	case 6:
		g.t("'a" + strings.Repeat("'\n'b", n/4) + "'")
	case 7:
		g.t("a", "/*"+g.long(pick(g.r, []string{"*", "/", "a*", "\n"}), n)+"*/", "+", "1")
	case 8:
		g.t(strings.Repeat("0", n)+pick(g.r, []string{"7", "12", "9223372036854775808"}), ",",
			pick(g.r, []string{"1", "12.5"})+"."[:g.r.Intn(2)]+strings.Repeat("0", n/2))
	}
	g.t(",", "1", ")")
}

func sqlBig(profile string, seed int64, n int, path string) {
	r := rand.New(rand.NewSource(seed))
	sr := &sqlRec{r: r, sp: &sqlParser{cut: profile == "C37"}, tw: newTrace(path)}
	sr.sp.clk = newClock(func() {
		sr.tw.line(map[string]any{"op": "hang", "sql": sr.sp.text})
		sr.tw.close()
	})
	g := &sqlGen{r: r, profile: profile}
	one := func() string {
		g.out, g.depth = nil, 1
		switch profile {
		case "C29":
			g.bigExpr()
		case "C32":
			g.bigLiteral()
		case "C34":
			switch g.r.Intn(3) {
			case 0:
				g.bigStmt()
			default:
				g.bigTable()
			}
		case "C33":
			g.bigStmt()
		default:
			pick(g.r, []func(){g.bigExpr, g.bigStmt, g.bigStmt, g.bigLiteral})()
		}
		return strings.Join(g.out, " ")
	}
	for i := 0; i < n; i++ {
		switch profile {
		case "C30", "C31":
			if g.p(50) { // many statements
				var b strings.Builder
				for k := g.size(128); k > 0; k-- {
					b.WriteString(pick(g.r, []string{"begin;", "commit;\n", "values (1);", "values 1;", ";", "select 'it''s;';",
						"select * from;", "use a;", "create table t (a int);", "select $;"}))
				}
				sr.script(b.String(), nil)
			} else {
				sr.script(one()+pick(g.r, []string{" )", "", " ?", " 1", " '"})+"; begin; "+one(), nil)
			}
		case "C35":
			g.out = nil
			g.bigLiteral()
			toks := []string{"SELECT", "*", "FROM", "a", "WHERE", "b", "=", "1"}
			var texts, show, res tree
			for k := 0; k < 3; k++ {
				var b strings.Builder
				at := g.r.Intn(len(toks))
				for j, t := range toks {
					b.WriteString(g.recase([]string{t})[0])
					b.WriteString(" ")
					if k > 0 && j == at {
						m := g.size(1024)
						switch g.r.Intn(4) {
						case 0:
							b.WriteString(strings.Repeat(g.blank(), m))
						case 1:
							b.WriteString("/*" + strings.Repeat(pick(g.r, []string{"a", "*", "* /", "\n", "'"}), m) + "*/ ")
						case 2:
							b.WriteString("--" + strings.Repeat(pick(g.r, []string{"a", "-", "*/", "é"}), m) + "\n")
						case 3:
							b.WriteString(strings.Repeat(pick(g.r, []string{"/* a */", "-- a\n", "/**/ "}), m/4))
						}
					}
				}
				x := []rune(b.String())
				show = append(show, string(x))
				texts = append(texts, runeInts(x))
				res = append(res, sr.sp.parse(&runesReader{x: x}, len(x), nil))
			}
			sr.tw.line(map[string]any{"op": "layouts", "texts": texts, "sql": show, "res": res})
		case "C36":
			var b strings.Builder
			b.WriteString("copy t ")
			if i > 0 && g.p(40) {
				b.WriteString("(" + strings.Join(g.numbered("c", g.size(128), 20), ", ") + ") ")
			}
			b.WriteString("from stdin;" + strings.Repeat(" ", g.r.Intn(2)*g.size(256)) + "\n")
			m := g.size(4096)
			unit := pick(g.r, []string{"a", "a\tb\n", "1,2\r\n", "é", "\n", "\\.\n", ";\n"})
			if i == 0 {
				m, unit = 70000, "12345\tab\n"
			}
			data := g.long(unit, m)
			b.WriteString(data + "\n")
			x := len([]rune(data)) + 1
			b.WriteString("begin; copy t from stdin;\n" + data)
			sr.script(b.String(), []int{pick(g.r, []int{x, x, x, x - g.r.Intn(min(x, 20))}), x + 10})
		default:
			sr.script(one(), nil)
		}
	}
	sr.tw.close()
}
