package main

import (
	"bytes"
	"encoding/gob"
	"math/rand"
	"os"
	"runtime"
	"slices"
	"strings"
	"sync"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/types"
)

var (
	keywordNames = []string{"ACTION", "ALL", "AND", "AS", "ASC", "BEGIN", "BIGINT", "BY", "BOOL", "CHAR", "CONSTRAINT",
		"COUNT_ALL", "CREATE", "DATABASE", "DESC", "DOUBLE", "FALSE", "FROM", "GROUP", "IF", "IN", "INDEX",
		"INT", "INT2", "INT4", "INT8", "INTEGER", "IS", "KEY", "NO", "NOT", "NULL", "ON", "OR", "PATH",
		"PRIMARY", "SELECT", "SET", "STDIN", "TABLE", "TEXT", "TO", "TRANSACTION", "TRUE", "UNIQUE",
		"USE", "VALUES", "VARCHAR", "VERBOSE", "WHERE", "WITH"}
	knownNames = []string{"btree", "columns", "config", "constraints", "count", "count_all", "databases",
		"description", "field", "flags", "indexes", "info", "maho", "metadata", "primary", "private",
		"public", "__rowid", "schemas", "sequences", "system", "tables", "tree"}
)

func mixCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s
	}
	b := []byte(s)
	for i := range b {
		if b[i] < 128 && r.Intn(2) == 0 {
			b[i] = []byte(strings.ToUpper(string(b[i : i+1])))[0]
		} else if b[i] < 128 {
			b[i] = []byte(strings.ToLower(string(b[i : i+1])))[0]
		}
	}
	return string(b)
}

// randName makes a name; many are equal to, or almost equal to, one made before.
func randName(r *rand.Rand, before []Name) Name {
	q := r.Intn(2) == 0
	var s string
	switch r.Intn(9) {
	case 0:
		s = mixCase(r, pick(r, keywordNames))
	case 1:
		s = mixCase(r, pick(r, knownNames))
	case 2:
		s = pick(r, keywordNames) + string(rune('a'+r.Intn(3)))
	case 3, 4:
		if len(before) > 0 {
			s = pick(r, before).text()
			switch r.Intn(5) {
			case 0:
				s = mixCase(r, s)
			case 1:
				s = strings.ToLower(s)
			case 2:
				if len(s) > 0 {
					s = s[:len(s)-1]
				}
			case 3:
				s += "x"
			}
		}
	case 5:
		n := 125 + r.Intn(7)
		s = strings.Repeat(pick(r, []string{"k", "K", "kQ"}), n)[:n]
		if r.Intn(2) == 0 {
			s += pick(r, []string{"a", "A", "ab", "é", "É"})
		}
	case 6:
		for i := 1 + r.Intn(4); i > 0; i-- {
			s += pick(r, []string{"é", "É", "ß", "ñ", "Ñ", "×", "÷", "ÿ", "a", "Z", "_", "1", "日"})
		}
	case 7:
		for i := 1 + r.Intn(3); i > 0; i-- {
			s += string(rune(pick(r, []byte("abABcC_19"))))
		}
	case 8:
		if q {
			s = string(randBytes(r, 4))
		} else {
			s = "n" + string(rune('0'+r.Intn(10)))
		}
	}
	if !q { // invalid characters cannot be in an unquoted name
		s = strings.Map(func(c rune) rune {
			// The specification knows the cases of these letters.
			if c < 256 || c == '日' {
				return c
			}
			return '?'
		}, strings.ToValidUTF8(s, "?"))
	}
	return mkName(q, s)
}

// ids numbers identifiers in the order they are seen.
type ids map[types.Identifier]int

func (m ids) num(id types.Identifier) int {
	if n, ok := m[id]; ok {
		return n
	}
	m[id] = len(m) + 1
	return len(m)
}

func (p *pure) ident(m ids, n Name) {
	res := p.call(func() (Res, error) {
		id := n.id2()
		return Res{"ok", m.num(id), ints([]byte(id.String()))}, nil
	})
	p.tw.line(M{"op": "id", "name": n, "res": res})
}

// id2 makes the identifier even of an empty name.
func (n Name) id2() types.Identifier {
	return types.ID(n.text(), n[0] == 1)
}

func (p *pure) gobIdent(m ids, n Name) {
	res := p.call(func() (Res, error) {
		id := n.id2()
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode([]types.Identifier{id}); err != nil {
			return nil, err
		}
		var got []types.Identifier
		if err := gob.NewDecoder(&buf).Decode(&got); err != nil {
			return nil, err
		}
		if len(got) != 1 {
			return resRej, nil
		}
		// And again by itself.
		b, err := got[0].GobEncode()
		if err != nil {
			return nil, err
		}
		var id2 types.Identifier
		if err := id2.GobDecode(b); err != nil {
			return nil, err
		}
		if id2 != got[0] {
			return resRej, nil
		}
		return Res{"ok", m.num(id2), ints([]byte(id2.String()))}, nil
	})
	p.tw.line(M{"op": "gob", "name": n, "res": res})
}

// gobDef encodes and decodes the definition of a table.
func (p *pure) gobDef(m ids, d *Def) {
	a := d.args()
	cols := []types.Identifier{}
	for _, c := range d.Cols {
		cols = append(cols, c.id2())
	}
	tt := engine.TableType{Version: 1, ColumnNames: cols, ColumnTypes: a.types, Key: a.key}
	if len(d.DB) > 3 {
		// Names of indexes are stored too.
		tt.Indexes = []engine.IndexType{{Name: d.TB.id2(), Key: a.key}}
	}
	res := p.call(func() (Res, error) {
		b, err := tt.Encode()
		if err != nil {
			return nil, err
		}
		// What was encoded must not share memory with anything.
		got, err := engine.DecodeTableType(slices.Clone(b))
		if err != nil {
			return nil, err
		}
		cns := []int{}
		texts := [][]int{}
		for _, c := range got.ColumnNames {
			cns = append(cns, m.num(c))
			texts = append(texts, ints([]byte(c.String())))
		}
		cts := [][]int{}
		for _, ct := range got.ColumnTypes {
			cts = append(cts, toColType(ct))
		}
		key := [][2]int{}
		for _, ck := range got.Key {
			k := [2]int{int(ck.Column()), 0}
			if ck.Reverse() {
				k[1] = 1
			}
			key = append(key, k)
		}
		idx := 0
		if len(got.Indexes) == 1 {
			idx = m.num(got.Indexes[0].Name)
			if !slices.Equal(got.Indexes[0].Key, got.Key) {
				return resRej, nil
			}
		} else if len(got.Indexes) > 1 {
			return resRej, nil
		}
		if got.Version != 1 {
			return resRej, nil
		}
		return Res{"ok", cns, texts, cts, key, idx}, nil
	})
	iname := Name{}
	if tt.Indexes != nil {
		iname = d.TB
	}
	p.tw.line(M{"op": "def", "def": d, "index": iname, "res": res})
}

func identRandom(profile string, seed int64, n int, out string) {
	p := &pure{tw: newTrace(out), r: rand.New(rand.NewSource(seed))}
	p.ck = newClock(func() {
		p.tw.line(M{"op": "hang", "res": Res{"hang"}})
		p.tw.close()
	})
	var m ids
	var before []Name
	reset := func() {
		m = ids{}
		before = nil
		p.tw.line(M{"op": "reset", "res": resOK})
	}
	reset()
	if seed < 0 { // every keyword and known name, quoted and unquoted, in three cases
		for _, s := range append(slices.Clone(keywordNames), knownNames...) {
			for _, t := range []string{s, strings.ToLower(s), strings.ToUpper(s), s[:1] + strings.ToLower(s[1:])} {
				for q := 0; q < 2; q++ {
					if profile == "C18" {
						p.ident(m, mkName(q == 1, t))
					} else {
						p.gobIdent(m, mkName(q == 1, t))
					}
				}
			}
		}
		p.tw.close()
		return
	}
	sp := storeProfiles()["C12"]
	for p.tw.n < n {
		if len(before) > 60+p.r.Intn(300) {
			reset()
		}
		nm := randName(p.r, before)
		before = append(before, nm)
		switch {
		case profile == "C18":
			p.ident(m, nm)
		case p.r.Intn(3) != 0:
			p.gobIdent(m, nm)
		default:
			d := sp.def(p.r, 0)
			for i := range d.Cols {
				d.Cols[i] = randName(p.r, before)
				before = append(before, d.Cols[i])
			}
			if p.r.Intn(8) == 0 {
				d.Types[0] = []int{2, 8, 0, 0}
				d.Key = [][2]int{}
			}
			p.gobDef(m, d)
		}
	}
	p.tw.close()
}

// identConc makes identifiers in many goroutines at once.
func identConc(seed int64, rounds int, out string) {
	tw := newTrace(out)
	const workers = 16
	for rd := 0; rd < rounds; rd++ {
		r := rand.New(rand.NewSource(seed + int64(rd)))
		// New names in every round, so that they are not there yet.
		prefix := "r" + string(rune('a'+rd%26)) + string(rune('a'+rd/26%26)) + string(rune('a'+rd/676%26)) + string(rune('a'+os.Getpid()%26))
		var names []Name
		for i := 0; i < 24; i++ {
			s := mixCase(r, prefix+string(rune('a'+r.Intn(6)))+string(rune('a'+r.Intn(3))))
			if r.Intn(6) == 0 {
				s = pick(r, keywordNames)
			}
			names = append(names, mkName(r.Intn(3) == 0, s))
		}
		type obs struct {
			n Name
			w types.Identifier
			t []int
		}
		all := make([][]obs, workers)
		var wg sync.WaitGroup
		begin := make(chan struct{})
		c := newClock(func() {
			tw.line(M{"op": "hang", "res": Res{"hang"}})
			tw.close()
		})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			rw := rand.New(rand.NewSource(seed*31 + int64(rd*workers+w)))
			go func() {
				defer wg.Done()
				<-begin
				for _, i := range rw.Perm(len(names)) {
					n := names[i]
					id := n.id2()
					if rw.Intn(3) == 0 {
						runtime.Gosched()
					}
					all[w] = append(all[w], obs{n, id, ints([]byte(id.String()))})
				}
			}()
		}
		c.guard(func() (Res, error) {
			close(begin)
			wg.Wait()
			return resOK, nil
		})
		c.done()
		tw.line(M{"op": "reset", "res": resOK})
		m := ids{}
		seen := map[string]bool{}
		for w := range all {
			for _, o := range all[w] {
				l := M{"op": "id", "name": o.n, "res": Res{"ok", m.num(o.w), o.t}}
				k := string(encodeJSON(l)) // identical observations once
				if !seen[k] {
					seen[k] = true
					tw.line(l)
				}
			}
		}
	}
	tw.close()
}
