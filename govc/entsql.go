package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const entSQL = "entgo.io/ent/dialect/sql"

// sqlRun is what a query is rendered against: the dialect, whether placeholders
// are cast, and the node of the graph.
type sqlRun struct{ d, cast, g *Term }

// extFn is a function of a dependency that is given by its contract.
type extFn struct {
	id int
	f  func(x *Exec, st *State, args []Value) []Outcome
}

func (v extFn) key(k *keyer) string { return fmt.Sprintf("ext%d", v.id) }

var extN int

// selectorVal is a selector of ent: where is its condition, nil if there is none.
type selectorVal struct {
	d, schema, table *Term
	where            Value
}

func (v selectorVal) key(k *keyer) string {
	return "sel" + tkey(v.d) + tkey(v.schema) + tkey(v.table) + keys(k, []Value{v.where})
}

// reflVal is a selector or its condition as seen by reflection.
type reflVal struct {
	sel   Value
	where bool
}

func (v reflVal) key(k *keyer) string { return fmt.Sprint("refl", v.where, v.sel.key(k)) }

// plainAny are the interfaces that the values of nodes do not have.
var plainAny = map[string]bool{entSQL + ".Querier": true, entSQL + ".ParamFormatter": true}

// fieldNo is the index of a field of a struct.
func fieldNo(t types.Type, name string) int {
	u, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return i
			}
		}
	}
	unsup("%v has no field %s", t, name)
	return 0
}

// nodeField is the name of the field of a struct that holds a tree.
func nodeField(t types.Type) string {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if isNodePtr(u.Field(i).Type()) {
			return u.Field(i).Name()
		}
	}
	unsup("%v has no tree", t)
	return ""
}

// sub is the address of a field.
func (x *Exec) sub(st *State, v Value, name string) Value {
	p, ok := v.(PtrVal)
	if !ok {
		unsup("field %s of %T", name, v)
	}
	s, ok := x.load(st, p, nil).(StructVal)
	if !ok {
		unsup("field %s of %T", name, x.load(st, p, nil))
	}
	return PtrVal{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], step{Field: fieldNo(s.Typ, name)})}
}

func (x *Exec) getField(st *State, v Value, name string) Value {
	return x.load(st, x.sub(st, v, name), nil)
}

func (x *Exec) setField(st *State, v Value, name string, nv Value) {
	x.store(st, x.sub(st, v, name), nv)
}

// The errors of a builder are counted.

func (x *Exec) errCount(st *State, b Value) *Term { return x.getField(st, b, "errs").(SliceVal).Len }

func (x *Exec) setErrs(st *State, b Value, n *Term) {
	e := x.getField(st, b, "errs").(SliceVal)
	s := SliceVal{Elem: e.Elem, Off: Int(0), Len: n}
	if n != Int(0) {
		s.T = UF("errors", seqOf(SAny), n)
	}
	x.setField(st, b, "errs", s)
}

// builderText is the text of a builder of ent; there is none before the first write.
func (x *Exec) builderText(st *State, b Value) *Term {
	if p, ok := x.getField(st, b, "sb").(PtrVal); ok {
		return x.load(st, p, nil).(BuilderVal).Text
	}
	return Str("")
}

func (x *Exec) setBuilderText(st *State, b Value, t *Term) {
	x.setField(st, b, "sb", PtrVal{Obj: st.alloc(types.Typ[types.Invalid], BuilderVal{t})})
}

func init() {
	for n, h := range map[string]Handler{
		"vspec/espec.Bound": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(Cons("any_wrap", SAny, Str("bound"), x.term(a[0])))
		}),
		"github.com/huandu/xstrings.ToSnakeCase": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(x.specFn("espec.Snake", x.term(a[0])))
		}),
		"(*" + entSQL + ".Builder).Ident": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			if x.term(x.getField(st, a[0], "qualifier")) != Str("") {
				unsup("a builder with a qualifier")
			}
			t := x.specFn("espec.Quoted", x.term(x.getField(st, a[0], "dialect")), x.term(a[1]))
			x.setBuilderText(st, a[0], Concat(x.builderText(st, a[0]), t))
			return one(st, a[0])
		},
		"(*" + entSQL + ".Builder).AddError": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			n := st.simp(x.isNil(st, a[1]))
			x.setErrs(st, a[0], Add(x.errCount(st, a[0]), Ite(n, Int(0), Int(1))))
			return one(st, a[0])
		},
		"(*" + entSQL + ".Builder).Err": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			switch c := st.simp(Lt(Int(0), x.errCount(st, a[0]))); c {
			case True:
				return one(st, OpaqueIface{"error"})
			case False:
				return one(st, IfaceVal{})
			default:
				return one(st, MaybeErr{c})
			}
		},
		"(*" + entSQL + ".DialectBuilder).Select": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			if s, ok := a[1].(SliceVal); !ok || s.Len != Int(0) {
				unsup("Select with columns")
			}
			v := selectorVal{d: x.term(x.getField(st, a[0], "dialect")), schema: Str(""), table: Str("")}
			return one(st, PtrVal{Obj: st.alloc(site.sig.Results().At(0).Type().(*types.Pointer).Elem(), v)})
		},
		"(*" + entSQL + ".Selector).From": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			v := x.selector(st, a[0])
			t := deref(a[1])
			v.table, v.schema = x.term(x.getField(st, t, "name")), x.term(x.getField(st, t, "schema"))
			if x.term(x.getField(st, t, "as")) != Str("") {
				unsup("an alias of a table")
			}
			x.store(st, a[0], v)
			return one(st, a[0])
		},
		"(*" + entSQL + ".Selector).Where": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			v := x.selector(st, a[0])
			if v.where != nil {
				unsup("a selector with two conditions")
			}
			v.where = a[1]
			x.store(st, a[0], v)
			return one(st, a[0])
		},
		"(*" + entSQL + ".Selector).P": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, x.whereOf(st, a[0]))
		},
		entSQL + "/sqlgraph.HasNeighbors": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.edgeTest(st, a[0], a[1], nil)
			return one(st)
		},
		entSQL + "/sqlgraph.HasNeighborsWith": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			sel := PtrVal{Obj: st.alloc(st.heap[a[0].(PtrVal).Obj].Typ, selectorVal{d: x.selector(st, a[0]).d, schema: Str(""), table: Str("")})}
			var out []Outcome
			for _, o := range x.callValue(st, a[2], []Value{sel}, &callSite{}) {
				x.edgeTest(o.st, a[0], a[1], x.whereOf(o.st, sel))
				out = append(out, Outcome{o.st, nil})
			}
			return out
		},
		"reflect.ValueOf": pure(func(x *Exec, st *State, a []Value) Value {
			v := deref(a[0])
			x.selector(st, v)
			return reflVal{sel: v}
		}),
		"(reflect.Value).Elem": pure(func(x *Exec, st *State, a []Value) Value { return a[0].(reflVal) }),
		"(reflect.Value).FieldByName": pure(func(x *Exec, st *State, a []Value) Value {
			if t := st.norm(x.term(a[1])); t != Str("where") {
				unsup("field %v by reflection", t)
			}
			return reflVal{a[0].(reflVal).sel, true}
		}),
		"(reflect.Value).Type":       pure(func(x *Exec, st *State, a []Value) Value { return a[0].(reflVal) }),
		"(reflect.Value).UnsafeAddr": pure(func(x *Exec, st *State, a []Value) Value { return a[0].(reflVal) }),
		"(reflect.Value).Addr":       pure(func(x *Exec, st *State, a []Value) Value { return a[0].(reflVal) }),
		"reflect.NewAt":              pure(func(x *Exec, st *State, a []Value) Value { return a[1].(reflVal) }),
		"reflect.Indirect":           pure(func(x *Exec, st *State, a []Value) Value { return a[0].(reflVal) }),
		"(reflect.Value).Interface": pure(func(x *Exec, st *State, a []Value) Value {
			r := a[0].(reflVal)
			if !r.where {
				unsup("a selector by reflection")
			}
			return IfaceVal{types.NewPointer(x.w.entType("Predicate")), x.whereOf(st, r.sel)}
		}),
	} {
		depHandlers[n] = h
	}
}

func (w *World) entType(name string) types.Type {
	p := w.pkgs[entSQL]
	if p == nil || p.Type(name) == nil {
		unsup("no type %s in ent", name)
	}
	return p.Type(name).Type()
}

func (x *Exec) selector(st *State, v Value) selectorVal {
	if p, ok := v.(PtrVal); ok {
		if s, ok := x.load(st, p, nil).(selectorVal); ok {
			return s
		}
	}
	unsup("a selector that is a %T", v)
	return selectorVal{}
}

func (x *Exec) whereOf(st *State, sel Value) Value {
	if w := x.selector(st, sel).where; w != nil {
		return w
	}
	unsup("a selector without a condition")
	return nil
}

// edgeTest makes the condition of a selector the existence test of a step over an
// edge; cond is the condition on the neighbours. When the test is rendered, the
// condition is rendered once, as its only part with arguments.
func (x *Exec) edgeTest(st *State, sel, stepPtr, cond Value) {
	v := x.selector(st, sel)
	if v.where != nil {
		unsup("a selector with two conditions")
	}
	get := func(part, f string) *Term {
		t := x.load(st, x.sub(st, x.sub(st, stepPtr, part), f), nil)
		if s, ok := t.(SliceVal); ok {
			return st.toTerm(s, types.NewSlice(s.Elem))
		}
		return x.term(t)
	}
	for _, p := range []string{"Edge", "To"} {
		if get(p, "Schema") != Str("") {
			unsup("a step with a schema")
		}
	}
	if i, ok := x.load(st, x.sub(st, x.sub(st, stepPtr, "From"), "V"), nil).(IfaceVal); !ok || i.Typ != nil {
		unsup("a step from a value")
	}
	terms := []*Term{v.d, v.schema, v.table, get("From", "Table"), get("From", "Column"), get("To", "Table"), get("To", "Column"),
		get("Edge", "Rel"), get("Edge", "Inverse"), get("Edge", "Table"), get("Edge", "Columns")}
	extN++
	f := extFn{extN, func(x *Exec, st *State, args []Value) []Outcome {
		b := args[0]
		write := func(st *State, with *Term, text *Term) {
			x.setBuilderText(st, b, Concat(x.builderText(st, b), x.specFn("espec.StepText", append(append([]*Term{}, terms...), with, text)...)))
		}
		if cond == nil {
			write(st, False, Str(""))
			return one(st)
		}
		// a builder of its own renders the condition
		bt := x.w.entType("Builder")
		nb := PtrVal{Obj: st.alloc(bt, zero(bt))}
		for _, f := range []string{"dialect", "total"} {
			x.setField(st, nb, f, x.getField(st, b, f))
		}
		join := need(x.w.prog.LookupMethod(types.NewPointer(bt), x.w.pkgs[entSQL].Pkg, "Join"), "Builder.Join")
		q := join.Signature.Params().At(0).Type().(*types.Slice).Elem()
		qs := SliceVal{Obj: st.alloc(types.NewSlice(q), SeqVal{q, []seg{{Item: IfaceVal{types.NewPointer(x.w.entType("Predicate")), cond}}}}), Off: Int(0), Len: Int(1), Elem: q}
		var out []Outcome
		for _, o := range x.callValue(st, FuncVal{Fn: join}, []Value{nb, qs}, &callSite{}) {
			st := o.st
			write(st, True, x.builderText(st, nb))
			a := x.append(st, x.getField(st, b, "args").(SliceVal), x.getField(st, nb, "args").(SliceVal))
			if len(a) != 1 {
				unsup("arguments of a shared array")
			}
			st = a[0].st
			x.setField(st, b, "args", a[0].res[0])
			x.setField(st, b, "total", x.getField(st, nb, "total"))
			// ent may drop the errors of a nested builder
			if n := x.errCount(st, nb); st.simp(Eq(n, Int(0))) != True {
				more := Fresh("errors", SInt)
				st.assume(And(Le(Int(0), more), Le(more, n)))
				x.setErrs(st, b, Add(x.errCount(st, b), more))
			}
			out = append(out, Outcome{st, nil})
		}
		return out
	}}
	pt := x.w.entType("Predicate")
	p := PtrVal{Obj: st.alloc(pt, zero(pt))}
	ft := pt.Underlying().(*types.Struct).Field(fieldNo(pt, "fns")).Type().(*types.Slice).Elem()
	x.setField(st, p, "fns", SliceVal{Obj: st.alloc(types.NewSlice(ft), SeqVal{ft, []seg{{Item: f}}}), Off: Int(0), Len: Int(1), Elem: ft})
	v.where = p
	x.store(st, sel, v)
}

// sqlReceiver is the builder of the query among the arguments of a function, and
// the builder of ent that it writes to.
func (x *Exec) sqlReceiver(st *State, args []Value) (mb, b Value, own bool) {
	for _, a := range args {
		p, ok := a.(PtrVal)
		if !ok || len(p.Path) > 0 {
			continue
		}
		if typeName(st.heap[p.Obj].Typ) == "entmq.MiniQLToEntSQLBuilder" {
			mb = p
		}
	}
	if mb == nil {
		unsup("a recursive function without the builder of the query: %v", x.stack)
	}
	if g, ok := x.getField(st, mb, "SQLBuilder").(PtrVal); ok {
		return mb, g, false
	}
	return mb, x.sub(st, mb, "Builder"), true
}

// sqlFields are the components of a builder of ent.
func sqlFields(x *Exec, c *compFinder, b Value) {
	at := func(name string) cell {
		q := x.sub(c.st, b, name).(PtrVal)
		return cell{q.Obj, q.Path}
	}
	c.add(&comp{name: "text", cell: at("sb"), sort: SStr,
		get: func(st *State) *Term { return x.builderText(st, b) },
		set: func(st *State, t *Term) { x.setBuilderText(st, b, t) },
		back: func(st *State) int {
			if p, ok := x.getField(st, b, "sb").(PtrVal); ok {
				return p.Obj
			}
			return 0
		}})
	anyT := types.NewInterfaceType(nil, nil)
	c.add(&comp{name: "args", cell: at("args"), sort: seqOf(SAny),
		get: func(st *State) *Term { return st.toTerm(x.getField(st, b, "args"), types.NewSlice(anyT)) },
		set: func(st *State, t *Term) {
			s := SliceVal{Obj: st.alloc(types.NewSlice(anyT), SeqVal{anyT, []seg{{Block: t}}}), Off: Int(0), Len: SeqLen(t), Elem: anyT}
			x.setField(st, b, "args", s)
		},
		back: func(st *State) int { return x.getField(st, b, "args").(SliceVal).Obj }})
	c.add(&comp{name: "total", cell: at("total"), sort: SInt,
		get: func(st *State) *Term { return x.term(x.getField(st, b, "total")) },
		set: func(st *State, t *Term) { x.setField(st, b, "total", tv(t)) }})
	c.add(&comp{name: "errors", cell: at("errs"), sort: SInt,
		get: func(st *State) *Term { return x.errCount(st, b) },
		set: func(st *State, t *Term) { x.setErrs(st, b, t) }})
}

func sqlExec(w *World, unit string, recs map[*ssa.Function]bool) *Exec {
	text := func(x *Exec, n, k *Term) *Term {
		return x.specFn("espec.SQLText", x.sql.d, x.sql.cast, False, x.sql.g, n, k)
	}
	args := func(x *Exec, n *Term) *Term { return x.specFn("espec.SQLArgs", x.sql.cast, x.sql.g, n) }
	r := &role{
		name: "entsql",
		find: func(x *Exec, c *compFinder) {
			var roots []Value
			for _, r := range c.cells {
				if typeName(r.typ) == "entmq.MiniQLToEntSQLBuilder" && len(r.path) == 0 {
					roots = append(roots, PtrVal{Obj: r.obj})
				}
			}
			_, b, _ := x.sqlReceiver(c.st, roots)
			sqlFields(x, c, b)
		},
		enter: func(x *Exec, st *State, args []Value) (string, func()) {
			mb, b, own := x.sqlReceiver(st, args)
			old := x.sql
			x.sql = &sqlRun{d: x.term(x.getField(st, b, "dialect")), cast: Not(x.term(x.getField(st, mb, "DisableTypeCasting"))), g: x.getField(st, mb, "Node").(OpaquePtr).T}
			if x.term(x.getField(st, b, "qualifier")) != Str("") {
				unsup("a builder with a qualifier")
			}
			return fmt.Sprint(own), func() { x.sql = old }
		},
		anyRecv: func(x *Exec, st *State, args []Value) {
			mb, b, _ := x.sqlReceiver(st, args)
			for _, f := range []string{"Node", "QueryString", "", "Graph", "DisableTypeCasting"} {
				if f == "" { // the tree
					f = nodeField(x.load(st, mb, nil).(StructVal).Typ)
				}
				p := x.sub(st, mb, f)
				x.store(st, p, x.havocVal(st, x.load(st, p, nil), f))
			}
			x.setField(st, b, "dialect", tv(Fresh("dialect", SStr)))
		},
		kind: func(x *Exec, st *State, n *Term) string {
			typ := st.norm(sortOfRec[SNode].sel(fieldNo(x.w.pegNamed("Node"), "Type"), n))
			switch {
			case typ == Str("value"):
				return "value"
			case typ == Str("function") && st.simp(Eq(sortOfRec[SNode].sel(fieldNo(x.w.pegNamed("Node"), "Name"), n), Str("has_edge"))) == True:
				return "edge"
			}
			return ""
		},
		pre: func(x *Exec, n *Term) *Term { return x.specFn("WF", n) },
		ok:  func(x *Exec, n *Term) *Term { return x.specFn("espec.SQLOK", x.sql.g, n) },
		upds: map[string]func(x *Exec, n *Term, old map[string]*Term) *Term{
			"text": func(x *Exec, n *Term, old map[string]*Term) *Term {
				return Concat(old["text"], text(x, n, old["total"]))
			},
			"args": func(x *Exec, n *Term, old map[string]*Term) *Term {
				return SeqCat(seqOf(SAny), old["args"], args(x, n))
			},
			"total": func(x *Exec, n *Term, old map[string]*Term) *Term {
				return Add(old["total"], SeqLen(args(x, n)))
			},
			"errors": func(x *Exec, n *Term, old map[string]*Term) *Term { return old["errors"] },
		},
		link: func(x *Exec, st *State, get func(string) *Term) *Term {
			return And(Le(Int(0), get("total")), Le(Int(0), get("errors")))
		},
		names: map[string]string{
			"text":        "the text of the node is written",
			"args":        "the arguments of the node are bound in order",
			"total":       "the arguments of the node are counted",
			"errors":      "no error is recorded for what ent can express",
			"link":        "the number of arguments stays valid",
			"ok":          "what ent cannot express is an error",
			"error":       "what ent can express is no error",
			"value text":  "value: the placeholder of the value is written",
			"value args":  "value: the value is bound",
			"value total": "value: the value is counted",
			"edge text":   "edge: the test of the edge is written",
			"edge args":   "edge: the arguments of the condition are bound in order",
			"edge total":  "edge: the arguments of the condition are counted",
			"edge ok":     "edge: what is no edge is an error",
			"edge error":  "edge: what is an edge is no error",
			"edge errors": "edge: no error is recorded for an edge",
		},
	}
	x := &Exec{w: w, unit: unit, maxSteps: 400000, role: r, recs: recs,
		focus: focusOn("espec.SQLOK", "espec.SQLText", "espec.SQLArgs", "espec.ListText", "espec.ListArgs", "ValuesFrom", "WF")}
	x.lookup = contracts(parseContract(w), valueContract(w), stringContract(w))
	list := func(f func(x *Exec, get func(string) *Term, l, i *Term) *Term) func(x *Exec, env *loopEnv) []*Term {
		return func(x *Exec, env *loopEnv) []*Term {
			if len(x.runs) == 0 {
				return nil
			}
			get := getter(env.st, x.runs[len(x.runs)-1].comps)
			var ts []*Term
			for _, s := range env.seqs {
				var l *Term
				switch sortOf(s.Elem) {
				case SAny:
					l = env.st.sliceTerm(s)
				case SNode:
					if l = env.st.sliceTerm(s); l != nil {
						l = x.specFn("ValuesFrom", l, Int(0))
					}
				default:
					continue
				}
				for _, i := range env.ints {
					if l == nil || i.Op == "int" && i.I < 0 {
						ts = append(ts, nil)
					} else {
						ts = append(ts, f(x, get, l, i))
					}
				}
			}
			return ts
		}
	}
	x.loops = []loopRule{
		{name: "text of the list", mk: list(func(x *Exec, get func(string) *Term, l, i *Term) *Term {
			return Concat(get("text"), x.specFn("espec.ListText", x.sql.d, l, i, get("total")))
		})},
		{name: "arguments of the list", mk: list(func(x *Exec, get func(string) *Term, l, i *Term) *Term {
			return SeqCat(seqOf(SAny), get("args"), x.specFn("espec.ListArgs", l, i))
		})},
		{name: "number of arguments of the list", mk: list(func(x *Exec, get func(string) *Term, l, i *Term) *Term {
			return Add(get("total"), SeqLen(x.specFn("espec.ListArgs", l, i)))
		})},
		valuesLoop,
		{name: "valid number of arguments", mk: func(x *Exec, env *loopEnv) []*Term {
			if len(x.runs) == 0 {
				return nil
			}
			return []*Term{x.role.link(x, env.st, getter(env.st, x.runs[len(x.runs)-1].comps))}
		}},
	}
	return x
}

// stringContract takes calls of Node.String by its contract: there is a text for
// every tree, what it says is of no interest.
func stringContract(w *World) func(fn *ssa.Function) Handler {
	ptr, val := w.method("miniquery", "Node", "String", true), w.method("miniquery", "Node", "String", false)
	return func(fn *ssa.Function) Handler {
		if fn != ptr && fn != val {
			return nil
		}
		return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			n := st.toTerm(a[0], types.NewPointer(x.w.pegNamed("Node")))
			x.oblige(st, Not(Eq(n, nilNode())), "no-panic: nil node")
			x.oblige(st, Or(x.specFn("WF", n), x.specFn("IsOperator", n)), "no-panic: the node has a text")
			return one(st, tv(Fresh("message", SStr)))
		}
	}
}

// verifySQL checks the rendering of a query, into a builder of its own and into
// one of the caller.
func verifySQL(w *World) *Exec {
	fn := need(w.method("entmq", "MiniQLToEntSQLBuilder", "Query", true), "MiniQLToEntSQLBuilder.Query")
	return withRoles(func(recs map[*ssa.Function]bool) *Exec {
		x := sqlExec(w, "entmq.MiniQLToEntSQLBuilder.Query", recs)
		for _, own := range []bool{true, false} {
			st := newState()
			q, d, k, g, plain := Var("query", SStr), Var("dialect", SStr), Var("total", SInt), Var("graph", "Ptr"), Var("plain", SBool)
			st.assume(Le(Int(0), k))
			mb := x.entBuilder(st, fn.Signature.Recv().Type(), map[string]Value{"QueryString": tv(q), "Node": OpaquePtr{g}, "DisableTypeCasting": tv(plain)})
			b := x.sub(st, mb, "Builder")
			old := []*Term{Str(""), SeqEmpty(seqOf(SAny))}
			c := &compFinder{x: x, st: st}
			if !own {
				bt := w.entType("Builder")
				x.setField(st, b, "dialect", tv(Var("dialect_own", SStr)))
				b = PtrVal{Obj: st.alloc(bt, zero(bt))}
				x.setField(st, mb, "SQLBuilder", b)
				old = []*Term{Var("text_before", SStr), Var("args_before", seqOf(SAny))}
			}
			sqlFields(x, c, b)
			get := func(st *State, name string) *Term { return getter(st, c.comps)(name) }
			if !own {
				c.comps[0].set(st, old[0])
				c.comps[1].set(st, old[1])
			}
			x.setField(st, b, "dialect", tv(d))
			x.setField(st, b, "total", tv(k))
			x.sql = &sqlRun{d, Not(plain), g}
			n := x.specFn("Tree", q)
			ok := And(x.specFn("Valid", q), x.specFn("espec.SQLOK", g, n))
			errs := func(st *State) *Term {
				e := get(st, "errors")
				if !own {
					e = Add(e, x.errCount(st, x.sub(st, mb, "Builder")))
				}
				return e
			}
			for _, o := range x.call(st, fn, nil, []Value{mb}) {
				text, args := x.term(o.res[0]), o.st.toTerm(o.res[1], fn.Signature.Results().At(1).Type())
				st := o.st.clone()
				if st.assume(ok) {
					x.reached(st.clone(), "a query is rendered")
					if !own {
						x.oblige(st.clone(), And(Eq(text, Str("")), Eq(SeqLen(args), Int(0))), "what is rendered for the caller is not returned")
						text, args = get(st, "text"), get(st, "args")
					}
					x.oblige(st.clone(), Eq(text, Concat(old[0], x.specFn("espec.SQLText", d, Not(plain), False, g, n, k))), "the text is the one of the query")
					x.oblige(st.clone(), Eq(args, SeqCat(seqOf(SAny), old[1], x.specFn("espec.SQLArgs", Not(plain), g, n))), "the arguments are the ones of the query")
					x.oblige(st, Eq(errs(st), Int(0)), "what ent can express is no error")
				}
				text, args = x.term(o.res[0]), o.st.toTerm(o.res[1], fn.Signature.Results().At(1).Type())
				st = o.st.clone()
				if st.assume(Not(ok)) {
					x.reached(st.clone(), "an error is recorded")
					x.oblige(st.clone(), Lt(Int(0), errs(st)), "what ent cannot express is an error")
					x.oblige(st, And(Eq(text, Str("")), Eq(SeqLen(args), Int(0))), "with an error there is neither a text nor an argument")
				}
			}
		}
		return x
	})
}

// verifyBound checks that what is bound with a cast gives the driver the value,
// and is cast by its type, also for values that no query has.
func verifyBound(w *World) *Exec {
	x := &Exec{w: w, unit: "entmq bound values", maxSteps: 10000}
	p := w.pkgs["entmq"]
	found := false
	for _, n := range p.Pkg.Scope().Names() {
		t := p.Type(n)
		if t == nil {
			continue
		}
		u, ok := t.Type().Underlying().(*types.Struct)
		if !ok || u.NumFields() != 1 || sortOf(u.Field(0).Type()) != SAny {
			continue
		}
		fn := w.prog.LookupMethod(t.Type(), p.Pkg, "Value")
		found = true
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 2 {
			x.oblige(newState(), False, "what is bound has a value for the driver")
			continue
		}
		v := Var("value", SAny)
		for _, o := range x.call(newState(), fn, nil, []Value{StructVal{t.Type(), []Value{tv(v)}}}) {
			x.reached(o.st.clone(), "a value is bound")
			x.oblige(o.st.clone(), And(x.isNil(o.st, o.res[1])), "the value for the driver is no error")
			x.oblige(o.st, Eq(o.st.toTerm(o.res[0], fn.Signature.Results().At(0).Type()), v), "the driver gets the value itself")
		}
		cast := w.prog.LookupMethod(t.Type(), p.Pkg, "FormatParam")
		if cast == nil || cast.Signature.Params().Len() != 2 {
			continue
		}
		st, mark, d := newState(), Var("placeholder", SStr), Var("dialect", SStr)
		info := w.entType("StmtInfo")
		ptr := PtrVal{Obj: st.alloc(info, zero(info))}
		x.setField(st, ptr, "Dialect", tv(d))
		for _, o := range x.call(st, cast, nil, []Value{StructVal{t.Type(), []Value{tv(v)}}, tv(mark), ptr}) {
			x.reached(o.st.clone(), "a placeholder is written")
			x.oblige(o.st, Eq(x.term(o.res[0]), Concat(mark, Ite(Eq(d, Str("postgres")), x.specFn("espec.CastOf", v), Str("")))), "the placeholder is cast by the type of the value")
		}
	}
	if !found {
		unsup("no type of bound values")
	}
	return x
}

// valuesLoop collects the values of the elements of a list.
var valuesLoop = loopRule{name: "values of the elements", mk: func(x *Exec, env *loopEnv) []*Term {
	var ts []*Term
	for _, vs := range env.seqs {
		for _, ns := range env.seqs {
			if sortOf(vs.Elem) != SAny || sortOf(ns.Elem) != SNode {
				continue
			}
			v, n := env.st.sliceTerm(vs), env.st.sliceTerm(ns)
			for _, i := range env.ints {
				if v == nil || n == nil || i.Op == "int" && i.I < 0 {
					ts = append(ts, nil, nil)
					continue
				}
				rest := x.specFn("ValuesFrom", n, i)
				ts = append(ts, SeqCat(v.Sort, v, rest), env.filled(v, i, rest))
			}
		}
	}
	return ts
}}
