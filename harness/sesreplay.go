package main

import (
	"encoding/json"
)

// sesReplay executes the paths of spec/SessionMC.tla in the real sessions.
func sesReplay(profile, in, out string) {
	var items [][]Item
	replay(in, out,
		func(b []byte) bool {
			var p struct {
				Items [][]Item `json:"items"`
			}
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err)
			}
			items = p.Items
			return true
		},
		func(rp *replayer, clk *clock, b []byte) {
			var p struct {
				Path []struct {
					E   SesEv `json:"e"`
					Res Res   `json:"res"`
				} `json:"path"`
				Owner int       `json:"owner"`
				Cur   catState  `json:"cur"`
				Com   catState  `json:"com"`
				Ses   [][2]Name `json:"ses"`
			}
			if err := json.Unmarshal(b, &p); err != nil {
				fatal(err, string(b))
			}
			x := newSesExec(clk)
			x.items = items
			if !ok(x.init) {
				rp.mismatch(b, 0, "init", resOK, x.init)
				return
			}
			for i, s := range p.Path {
				e := s.E
				e.style = i
				rp.events.Add(1)
				kinds := []string{e.Kind}
				if e.Kind == "all" {
					kinds = resolveKinds
					if e.Op == "rschema" {
						kinds = []string{"create", "drop", "session"}
					}
				}
				for _, k := range kinds {
					e.Kind = k
					var res Res
					if e.Sweep == 1 {
						res = x.sweep(rp, b, i, &e)
						if res == nil {
							return
						}
					} else {
						res = x.do(&e)
					}
					if e.Op == "ctable" && len(res) == 2 && res[0] == "ok" && res[1].(int) >= 512 {
						res = resOK
					}
					if !sameJSON(res, s.Res) {
						rp.mismatch(b, i, e.Op+": "+e.text, s.Res, res)
						return
					}
				}
			}
			for i, d := range p.Ses {
				res := x.do(&SesEv{Ses: i + 1, Op: "rtable", Kind: "session", TB: mkName(false, "x")})
				want := Res{"name", []Name{d[0], d[1], mkName(true, "x")}}
				if !sameJSON(res, want) {
					rp.mismatch(b, -2, "current database and schema", want, res)
					return
				}
			}
			// The catalog at the end, in the transaction, and once it was rolled back.
			ids := map[int]int{}
			back := map[int]int{}
			check := func(what string, ses int, c catState) bool {
				for _, t := range c.Tables {
					var n [3]Name
					var id int
					var def TDef
					json.Unmarshal(t[0], &n)
					json.Unmarshal(t[1], &id)
					json.Unmarshal(t[2], &def)
					res := x.do(&SesEv{Ses: ses, Op: "open", DB: n[0], SC: n[1], TB: n[2]})
					good := len(res) == 4 && res[0] == "ok" && sameJSON(res[2], n)
					if good && len(def.Cols) > 0 {
						good = sameJSON(res[3], def)
					}
					if good {
						got := res[1].(int)
						o, ok := ids[id]
						p, ok2 := back[got]
						good = ok == ok2 && (!ok || o == got && p == id) && (got >= 512) == (id >= 512)
						ids[id], back[got] = got, id
					}
					if !good {
						rp.mismatch(b, -2, what+": table", t, res)
						return false
					}
				}
				isDb := map[string]bool{}
				for _, db := range c.Dbs {
					isDb[string(encodeJSON(db))] = true
					want := []Name{}
					for _, s := range c.Schemas {
						if sameJSON(s[0], db) {
							want = append(want, s[1])
						}
					}
					res := x.do(&SesEv{Ses: ses, Op: "schemas", DB: db})
					if !sameJSON(sortedNames(res), sortedNames(Res{"names", want})) {
						rp.mismatch(b, -2, what+": schemas", want, res)
						return false
					}
				}
				return true
			}
			if p.Owner != 0 {
				if !check("in the transaction", p.Owner, p.Cur) {
					return
				}
				if res := x.do(&SesEv{Ses: p.Owner, Op: "rollback"}); !ok(res) {
					rp.mismatch(b, len(p.Path), "rollback", resOK, res)
					return
				}
				ids, back = map[int]int{}, map[int]int{}
			}
			if res := x.do(&SesEv{Ses: 1, Op: "dbs"}); !sameJSON(sortedNames(res), sortedNames(Res{"names", p.Com.Dbs})) {
				rp.mismatch(b, len(p.Path), "databases", p.Com.Dbs, res)
				return
			}
			if !check("committed", 1, p.Com) {
				return
			}
			// Another session can begin a transaction.
			if res := x.do(&SesEv{Ses: 3, Op: "begin"}); !ok(res) {
				rp.mismatch(b, len(p.Path), "begin", resOK, res)
				return
			}
			x.do(&SesEv{Ses: 3, Op: "rollback"})
		})
}

// snapshot is what the engine shows of the catalog, as far as the models use it.
func (x *sesExec) snapshot() string {
	s := []any{x.do(&SesEv{Ses: 4, Op: "dbs"})}
	dbs := []Name{mkName(false, "maho"), mkName(false, "a"), mkName(false, "b"), mkName(false, "system")}
	for _, db := range dbs {
		s = append(s, x.do(&SesEv{Ses: 4, Op: "schemas", DB: db}))
	}
	for _, db := range dbs[:2] {
		for _, sc := range []Name{mkName(false, "public"), mkName(false, "a")} {
			s = append(s, x.do(&SesEv{Ses: 4, Op: "open", DB: db, SC: sc, TB: mkName(false, "a")}))
		}
	}
	s = append(s, x.do(&SesEv{Ses: 4, Op: "open", DB: mkName(false, "system"), SC: mkName(false, "info"),
		TB: mkName(false, "tables")}))
	return string(encodeJSON(s))
}

// sweep executes a statement with each of its calls of the storage failing in turn: a refused
// statement must have no effect and must leave the storage free for another transaction.  It returns
// the result of the statement once it was executed, or nil after a mismatch.
func (x *sesExec) sweep(rp *replayer, b []byte, at int, e *SesEv) Res {
	before := x.snapshot()
	for n := 1; n < 500; n++ {
		for _, panics := range []bool{false, true} {
			x.flt.arm(n, panics)
			f := *e
			res := x.do(&f)
			if f.Fired == 0 {
				e.text = f.text
				return res
			}
			rp.events.Add(1)
			if !sameJSON(res, resRej) {
				e.text = f.text
				return res // the failure made no difference
			}
			if res := x.do(&SesEv{Ses: 3, Op: "begin"}); !ok(res) {
				rp.mismatch(b, at, "begin after "+f.text+" failed", resOK, res)
				return nil
			}
			if res := x.do(&SesEv{Ses: 3, Op: "rollback"}); !ok(res) {
				rp.mismatch(b, at, "rollback after "+f.text+" failed", resOK, res)
				return nil
			}
			if after := x.snapshot(); after != before {
				rp.mismatch(b, at, "catalog after "+f.text+" failed", before, after)
				return nil
			}
		}
	}
	rp.mismatch(b, at, "sweep", "an end", e.Op)
	return nil
}
