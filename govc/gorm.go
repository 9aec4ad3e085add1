package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gormRun is the execution of a function of gormq: s is the schema of the model.
type gormRun struct {
	db, s *Term
	ok    *Term // there is a schema
}

var nilPtr = UF("nilptr", "Ptr")

// assumeField: what gorm guarantees about a field p of the map or list of a schema.
// A field with a column is found by the name of the column.
func (x *Exec) assumeField(st *State, list, p *Term) {
	if x.spec || list.Op != "uf" || list.Name != "fld_schema.Schema_FieldsByName" && list.Name != "fld_schema.Schema_Fields" {
		return
	}
	col := UF("fld_schema.Field_DBName", SStr, p)
	st.assume(Implies(And(Not(Eq(p, nilPtr)), Not(Eq(col, Str("")))), x.specFn("gspec.IsColumn", list.Args[0], col)))
}

func (x *Exec) count(st *State, ghost string) { x.setGhost(st, ghost, Add(x.ghost(st, ghost), Int(1))) }

func init() {
	for n, h := range map[string]Handler{
		"vspec/gspec.Fold": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(UF("equalfold", SBool, x.term(a[0]), x.term(a[1])))
		}),
		"(*gorm.io/gorm.DB).AddError": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			switch st.simp(x.isNil(st, a[1])) {
			case True:
			case False:
				x.count(st, "errors")
				x.setGhost(st, "failed", a[0].(OpaquePtr).T)
			default:
				unsup("AddError with an error that may be nil")
			}
			return one(st, OpaqueIface{"error"})
		},
		"(*gorm.io/gorm.DB).Joins": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			q, ok := deref(a[1]).(TermVal)
			if s, isSl := a[2].(SliceVal); !ok || !isSl || s.Len != Int(0) {
				unsup("Joins with arguments")
			}
			x.count(st, "changes")
			return one(st, notNilDB(st, x.specFn("gspec.Join", a[0].(OpaquePtr).T, q.T)))
		},
		"(*gorm.io/gorm.DB).Where": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			i, ok := a[1].(IfaceVal)
			if !ok || i.Typ == nil || sortOf(i.Typ) != SStr {
				unsup("Where with other than a text")
			}
			text, vals := x.term(i.V), st.toTerm(a[2], site.sig.Params().At(1).Type())
			x.count(st, "wheres")
			x.oblige(st.clone(), Eq(text, x.ghost(st, "safe")), "the condition is what was written")
			x.oblige(st, Eq(x.ghost(st, "marks"), SeqLen(vals)), "there are as many values as placeholders")
			return one(st, notNilDB(st, x.specFn("gspec.Where", a[0].(OpaquePtr).T, text, vals)))
		},
		"gorm.io/gorm.Dialector.QuoteTo": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			name := x.term(a[2])
			ok := x.specFn("gspec.IsColumn", x.gorm.s, name)
			if ps := textParts(name); len(ps) == 3 && ps[1] == Str(".") {
				ok = x.specFn("gspec.IsRefColumn", x.gorm.s, ps[0], ps[2])
			}
			x.oblige(st, ok, "what is quoted is a column of the schema")
			g := x.ghost(st, "names")
			x.setGhost(st, "names", SeqCat(g.Sort, g, SeqUnit(name)))
			x.writeText(st, deref(a[1]), x.specFn("gspec.Quote", x.gorm.db, name))
			return one(st)
		},
		"(*gorm.io/gorm.Statement).Parse": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			m := st.toTerm(a[1], site.sig.Params().At(0).Type())
			bad := st.clone()
			var out []Outcome
			if st.assume(UF("gorm_parse_ok", SBool, m)) {
				s := UF("gorm_parse", "Ptr", m)
				st.assume(Not(Eq(s, nilPtr)))
				c := x.cells["fld_gorm.Statement_Schema"]
				st.heap[c] = &Obj{st.heap[c].Typ, OpaquePtr{s}}
				out = append(out, Outcome{st, []Value{IfaceVal{}}})
			}
			if bad.assume(Not(UF("gorm_parse_ok", SBool, m))) {
				out = append(out, Outcome{bad, []Value{OpaqueIface{"error"}}})
			}
			return out
		},
	} {
		depHandlers[n] = h
	}
}

func notNilDB(st *State, t *Term) Value {
	st.assume(Not(Eq(t, nilPtr)))
	return OpaquePtr{t}
}

// textParts are the parts of a concatenation.
func textParts(t *Term) []*Term {
	if t.Op == "str.++" {
		return t.Args
	}
	return []*Term{t}
}

// safeWrite: what is written is fixed text, an operator or a quoted column.
func safeWrite(x *Exec, st *State, t *Term) {
	t = st.norm(t)
	switch {
	case t.Op == "str":
		x.setGhost(st, "marks", Add(x.ghost(st, "marks"), Int(int64(strings.Count(t.Name, "?")))))
	case t.Op == "uf" && t.Name == "spec.gspec.Quote":
	default:
		x.oblige(st, x.specFn("gspec.Keyword", t), "what is written is no text of the query")
	}
	x.setGhost(st, "safe", Concat(x.ghost(st, "safe"), t))
}

func gormExec(w *World, unit string, recs map[*ssa.Function]bool) (*Exec, *State) {
	g := &gormRun{db: Var("db", "Ptr"), s: Var("schema", "Ptr"), ok: Var("has_schema", SBool)}
	seqAny := func(a, b *Term) *Term { return SeqCat(a.Sort, a, b) }
	r := &role{
		name: "gorm",
		find: func(x *Exec, c *compFinder) {
			c.text("text")
			c.list("vals", SAny)
			c.keys("joined")
			c.pointer("db", "*gorm.io/gorm.DB")
			for _, n := range []string{"names", "safe", "marks", "changes"} {
				c.ghost(n)
			}
		},
		pre: func(x *Exec, n *Term) *Term { return Or(x.specFn("WF", n), x.specFn("IsOperator", n)) },
		ok:  func(x *Exec, n *Term) *Term { return x.specFn("gspec.OK", g.s, n) },
		upd: map[string]func(x *Exec, n, old *Term) *Term{
			"text":   func(x *Exec, n, old *Term) *Term { return Concat(old, x.specFn("gspec.Text", g.db, g.s, n)) },
			"vals":   func(x *Exec, n, old *Term) *Term { return seqAny(old, x.specFn("gspec.Vals", n)) },
			"joined": func(x *Exec, n, old *Term) *Term { return x.specFn("gspec.Joins", n, old) },
			"names":  func(x *Exec, n, old *Term) *Term { return seqAny(old, x.specFn("gspec.Names", g.s, n)) },
		},
		upds: map[string]func(x *Exec, n *Term, old map[string]*Term) *Term{
			"db": func(x *Exec, n *Term, old map[string]*Term) *Term {
				return x.specFn("gspec.JoinDB", n, old["joined"], old["db"])
			},
		},
		link: func(x *Exec, st *State, get func(string) *Term) *Term {
			return And(Eq(get("safe"), get("text")), Eq(get("marks"), SeqLen(get("vals"))), Not(Eq(get("db"), nilPtr)))
		},
		rest: map[string][]func(x *Exec, xs, i *Term) *Term{
			"text":  {func(x *Exec, xs, i *Term) *Term { return x.specFn("gspec.TextFrom", g.db, g.s, xs, i) }},
			"vals":  {func(x *Exec, xs, i *Term) *Term { return x.specFn("gspec.ValsFrom", xs, i) }},
			"names": {func(x *Exec, xs, i *Term) *Term { return x.specFn("gspec.NamesFrom", g.s, xs, i) }},
			"ok":    {func(x *Exec, xs, i *Term) *Term { return x.specFn("gspec.OKFrom", g.s, xs, i) }},
		},
		names: map[string]string{
			"text":   "the text of the node is written",
			"vals":   "the values of the node are bound in order",
			"joined": "the relations of the node are noted",
			"names":  "the names of the node are the columns they stand for",
			"db":     "the relations of the node are joined once",
			"link":   "there is a value for every placeholder",
			"ok":     "what gorm cannot express is an error",
			"error":  "what gorm can express is no error",
		},
	}
	x := &Exec{w: w, unit: unit, maxSteps: 400000, role: r, recs: recs, gorm: g, onWrite: safeWrite,
		focus: focusOn("gspec.OK", "gspec.OKFrom", "gspec.Text", "gspec.TextFrom", "gspec.Vals", "gspec.ValsFrom", "gspec.Names", "gspec.NamesFrom",
			"gspec.Joins", "gspec.JoinsFrom", "gspec.JoinDB", "gspec.JoinDBFrom", "gspec.HasColumn", "gspec.Column", "gspec.HasFolded", "gspec.Folded", "gspec.RefOK", "gspec.RefName", "ValuesFrom", "WF")}
	x.lookup = contracts(parseContract(w), valueContract(w), schemaContract(w))
	x.loops = append(append(roleLoops(r), gormLoops(r)...), valuesLoop)
	st := newState()
	for n, t := range map[string]*Term{
		"names": SeqEmpty(seqOf(SStr)), "safe": Str(""), "marks": Int(0), "errors": Int(0), "changes": Int(0), "wheres": Int(0), "failed": nilPtr,
	} {
		x.newGhost(st, n, t)
	}
	st.assume(Not(Eq(g.db, nilPtr)))
	return x, st
}

// gormLoops are the quantities that the search for a field and the loop over the
// arguments of a function conserve.
func gormLoops(r *role) []loopRule {
	var out []loopRule
	for _, f := range []string{"gspec.HasFolded", "gspec.Folded"} {
		out = append(out, loopRule{name: f, mk: func(x *Exec, env *loopEnv) []*Term {
			var ts []*Term
			for _, s := range env.seqs {
				l := env.st.sliceTerm(s)
				if sortOf(s.Elem) != "Ptr" || l == nil {
					continue
				}
				for _, v := range sortedLive(env.fr.info.live[env.h]) {
					n, ok := env.regs[v].(TermVal)
					if !ok || n.T.Sort != SStr {
						continue
					}
					for _, i := range env.ints {
						ts = append(ts, x.specFn(f, l, i, n.T))
					}
				}
			}
			return ts
		}})
	}
	for _, f := range []string{"joined", "db"} {
		out = append(out, loopRule{name: f, mk: func(x *Exec, env *loopEnv) []*Term {
			if len(x.runs) == 0 {
				return nil
			}
			get := getter(env.st, x.runs[len(x.runs)-1].comps)
			var ts []*Term
			for _, s := range env.seqs {
				l := env.st.sliceTerm(s)
				if sortOf(s.Elem) != SNode || l == nil {
					continue
				}
				for _, i := range env.ints {
					if i.Op == "int" && i.I < 0 {
						ts = append(ts, nil)
					} else if f == "joined" {
						ts = append(ts, x.specFn("gspec.JoinsFrom", l, i, get("joined")))
					} else {
						ts = append(ts, x.specFn("gspec.JoinDBFrom", l, i, get("joined"), get("db")))
					}
				}
			}
			return ts
		}})
	}
	// the placeholders are as many as the values, the text is the safe one
	out = append(out, loopRule{name: "placeholders", mk: func(x *Exec, env *loopEnv) []*Term {
		if len(x.runs) == 0 {
			return nil
		}
		get := getter(env.st, x.runs[len(x.runs)-1].comps)
		return []*Term{x.role.link(x, env.st, get)}
	}})
	return out
}

// schemaContract takes calls of GetOrParseSchema by its contract.
func schemaContract(w *World) func(fn *ssa.Function) Handler {
	get := w.fn("gormq.GetOrParseSchema")
	return func(fn *ssa.Function) Handler {
		if get == nil || fn != get {
			return nil
		}
		return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			bad := st.clone()
			var out []Outcome
			if st.assume(x.gorm.ok) {
				st.assume(Not(Eq(x.gorm.s, nilPtr)))
				out = append(out, Outcome{st, []Value{OpaquePtr{x.gorm.s}, IfaceVal{}}})
			}
			if bad.assume(Not(x.gorm.ok)) {
				out = append(out, Outcome{bad, []Value{OpaquePtr{nilPtr}, OpaqueIface{"error"}}})
			}
			return out
		}
	}
}

// schemaCases are the ways in which a statement has a schema.
var schemaCases = []string{"with a schema", "with a model", "without a model"}

// schemaCase is the state of one of them.
func (x *Exec) schemaCase(st *State, c string) {
	g := x.gorm
	stat := UF("fld_gorm.DB_Statement", "Ptr", g.db)
	model := UF("fld_gorm.Statement_Model", SAny, stat)
	none := Cons("any_nil", SAny)
	sch := nilPtr
	switch c {
	case "with a schema":
		sch = Var("schema", "Ptr")
		st.assume(Not(Eq(sch, nilPtr)))
		g.s, g.ok = sch, True
	case "with a model":
		st.assume(Not(Eq(model, none)))
		g.s, g.ok = UF("gorm_parse", "Ptr", model), UF("gorm_parse_ok", SBool, model)
	default:
		st.assume(Eq(model, none))
		g.s, g.ok = Var("schema", "Ptr"), False
	}
	x.cells = map[string]int{"fld_gorm.Statement_Schema": st.alloc(types.Typ[types.Invalid], OpaquePtr{sch})}
}

// verifySchema checks GetOrParseSchema.
func verifySchema(w *World) []*Exec {
	var out []*Exec
	fn := need(w.fn("gormq.GetOrParseSchema"), "GetOrParseSchema")
	for _, c := range schemaCases {
		x, st := gormExec(w, "gormq.GetOrParseSchema", nil)
		x.lookup = nil
		x.schemaCase(st, c)
		for _, o := range x.call(st, fn, nil, []Value{OpaquePtr{x.gorm.db}}) {
			x.byNil(o, 1, func(o Outcome, isNil bool) {
				if isNil {
					x.reached(o.st.clone(), "a schema "+c)
					x.oblige(o.st, x.gorm.ok, "no schema is an error")
					x.oblige(o.st, Eq(o.res[0].(OpaquePtr).T, x.gorm.s), "the schema is the one of the statement or the model")
					return
				}
				x.reached(o.st.clone(), "no schema "+c)
				x.oblige(o.st, Not(x.gorm.ok), "a schema is no error")
			})
		}
		out = append(out, x)
	}
	return out
}

// verifyWire checks WireMiniQuery.
func verifyWire(w *World) []*Exec {
	var out []*Exec
	fn := need(w.fn("gormq.WireMiniQuery"), "WireMiniQuery")
	cases := []string{""}
	if w.fn("gormq.GetOrParseSchema") == nil {
		cases = schemaCases
	}
	for _, c := range cases {
		out = append(out, withRoles(func(recs map[*ssa.Function]bool) *Exec {
			x, st := gormExec(w, "gormq.WireMiniQuery", recs)
			if c != "" {
				x.schemaCase(st, c)
			}
			q := Var("query", SStr)
			for _, o := range x.call(st, fn, nil, []Value{OpaquePtr{x.gorm.db}, tv(q)}) {
				x.wired(o, q)
			}
			return x
		}))
	}
	return out
}

// wired checks the statement that results from a query.
func (x *Exec) wired(o Outcome, q *Term) {
	g := x.gorm
	gh := func(n string) *Term { return x.ghost(o.st, n) }
	res := o.res[0].(OpaquePtr).T
	quiet := And(Eq(gh("errors"), Int(0)), Eq(gh("wheres"), Int(0)), Eq(gh("changes"), Int(0)))
	empty := Eq(q, Str(""))
	n := x.specFn("Tree", q)
	ok := And(g.ok, x.specFn("Valid", q), x.specFn("gspec.OK", g.s, n))
	st := o.st.clone()
	if st.assume(empty) {
		x.reached(st.clone(), "the empty query")
		x.oblige(st, And(Eq(res, g.db), quiet), "the empty query changes nothing")
	}
	st = o.st.clone()
	if st.assume(Not(empty)) && st.assume(ok) {
		x.reached(st.clone(), "a condition is added")
		x.oblige(st.clone(), Eq(gh("errors"), Int(0)), "what gorm can express is no error")
		none := SeqEmpty(seqOf(SStr))
		x.oblige(st.clone(), Eq(gh("wheres"), Int(1)), "the condition is added once")
		want := x.specFn("gspec.Where", x.specFn("gspec.JoinDB", n, none, g.db), x.specFn("gspec.Text", g.db, g.s, n), x.specFn("gspec.Vals", n))
		x.oblige(st, Eq(res, want), "the statement has the condition and the joins of the query")
	}
	st = o.st.clone()
	if st.assume(Not(empty)) && st.assume(Not(ok)) {
		x.reached(st.clone(), "an error is recorded")
		x.oblige(st.clone(), And(Lt(Int(0), gh("errors")), Eq(gh("failed"), res)), "what gorm cannot express is an error")
		x.oblige(st, Eq(gh("wheres"), Int(0)), "with an error no condition is added")
	}
}

// wireContract takes calls of WireMiniQuery by its contract.
func wireContract(w *World) func(fn *ssa.Function) Handler {
	wire := need(w.fn("gormq.WireMiniQuery"), "WireMiniQuery")
	return func(fn *ssa.Function) Handler {
		if fn != wire {
			return nil
		}
		return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.count(st, "wires")
			return one(st, notNilDB(st, x.specFn("gspec.Wired", a[0].(OpaquePtr).T, x.term(a[1]))))
		}
	}
}

// joinContract takes calls of Join by its contract.
func joinContract(w *World) func(fn *ssa.Function) Handler {
	join := w.fn("miniquery.Join")
	return func(fn *ssa.Function) Handler {
		if join == nil || fn != join {
			return nil
		}
		return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, tv(x.specFn("Joined", st.toTerm(a[0], types.NewSlice(types.Typ[types.String])))))
		}
	}
}

// applyExec is an execution that takes WireMiniQuery by its contract.
func applyExec(w *World, unit string) (*Exec, *State) {
	x, st := gormExec(w, unit, nil)
	x.role, x.onWrite = nil, nil
	x.lookup = contracts(parseContract(w), wireContract(w), joinContract(w))
	x.focus = focusOn("gspec.ScopeOK")
	x.loops = []loopRule{{name: "gspec.ScopeOK", mk: overTexts(func(x *Exec, env *loopEnv, qs, i *Term) *Term {
		return x.specFn("gspec.ScopeOK", qs, i)
	})}}
	x.newGhost(st, "wires", Int(0))
	return x, st
}

// applied checks that a query was applied, and nothing else.
func (x *Exec) applied(st *State, res, q *Term) {
	gh := func(n string) *Term { return x.ghost(st, n) }
	x.oblige(st.clone(), Eq(gh("wires"), Int(1)), "the query is applied once")
	x.oblige(st.clone(), Eq(res, x.specFn("gspec.Wired", x.gorm.db, q)), "the statement is the one of the query")
	x.oblige(st.clone(), And(Eq(gh("errors"), Int(0)), Eq(gh("changes"), Int(0)), Eq(gh("wheres"), Int(0))), "nothing else is added")
}

// verifyApply checks ApplyMiniQuery.
func verifyApply(w *World) *Exec {
	x, st := applyExec(w, "gormq.ApplyMiniQuery")
	fn := need(w.fn("gormq.ApplyMiniQuery"), "ApplyMiniQuery")
	q := Var("query", SStr)
	for _, o := range x.call(st, fn, nil, []Value{tv(q)}) {
		for _, o := range x.callValue(o.st, o.res[0], []Value{OpaquePtr{x.gorm.db}}, &callSite{}) {
			x.reached(o.st.clone(), "a query is applied")
			x.applied(o.st, o.res[0].(OpaquePtr).T, q)
		}
	}
	return x
}

// verifyScope checks the scope of several queries.
func verifyScope(w *World) *Exec {
	x, st := applyExec(w, "gormq.MiniQuery.Scope")
	fn := need(w.method("gormq", "MiniQuery", "Scope", false), "MiniQuery.Scope")
	qs := Var("queries", seqOf(SStr))
	self := zero(fn.Signature.Recv().Type()).(StructVal)
	if len(self.Fields) != 1 {
		unsup("MiniQuery has other fields")
	}
	self.Fields[0] = fromTerm(qs, types.NewSlice(types.Typ[types.String]))
	ok := x.specFn("gspec.ScopeOK", qs, Int(0))
	for _, o := range x.call(st, fn, nil, []Value{self, OpaquePtr{x.gorm.db}}) {
		res := o.res[0].(OpaquePtr).T
		st := o.st.clone()
		if st.assume(ok) {
			x.reached(st.clone(), "a scope is applied")
			x.applied(st, res, x.specFn("Joined", qs))
		}
		st = o.st.clone()
		if st.assume(Not(ok)) {
			x.reached(st.clone(), "an error is recorded")
			gh := func(n string) *Term { return x.ghost(st, n) }
			x.oblige(st.clone(), And(Lt(Int(0), gh("errors")), Eq(gh("failed"), res)), "a query that is not valid by itself is an error")
			x.oblige(st, And(Eq(gh("wires"), Int(0)), Eq(gh("changes"), Int(0)), Eq(gh("wheres"), Int(0))), "with an error nothing is applied")
		}
	}
	return x
}
