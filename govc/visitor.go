package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The visitor. A callback of the environment is an unknown function: the calls and
// the nodes they get are logged, and each call may fail or not.

// visitorFields are the callbacks by name.
func (w *World) visitorFields() ([]string, *types.Named) {
	p := w.pkgs["miniquery"]
	t := p.Type("Visitor")
	if t == nil {
		panic(missing{"Visitor"})
	}
	n := t.Type().(*types.Named)
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		panic(missing{"Visitor"})
	}
	var out []string
	for i := 0; i < u.NumFields(); i++ {
		out = append(out, u.Field(i).Name())
	}
	return out, n
}

func callbackVar(name string) *Term { return Var("cb_"+name, "Ptr") }

// callbacks is a visitor with unknown callbacks.
func callbacks(names []string, t types.Type, f func(name string) Value) StructVal {
	v := StructVal{Typ: t}
	for _, n := range names {
		v.Fields = append(v.Fields, f(n))
	}
	return v
}

// fallible gives both results of a call of the environment.
func fallible(x *Exec, st *State) []Outcome {
	bad := st.clone()
	x.setGhost(bad, "failed", True)
	return []Outcome{{st, []Value{IfaceVal{}}}, {bad, []Value{OpaqueIface{"error"}}}}
}

func isCtx(v Value) *Term {
	i, ok := v.(OpaqueIface)
	return Bool(ok && i.Name == "ctx")
}

// verifyVisit checks Visitor.Visit.
func verifyVisit(w *World) *Exec {
	names, t := w.visitorFields()
	x := &Exec{w: w, unit: "Visitor.Visit", maxSteps: 50000}
	st := newState()
	n := Var("n", SNode)
	st.assume(Not(Eq(n, nilNode())))
	x.newGhost(st, "called", SeqEmpty(seqOf(SStr)))
	x.newGhost(st, "failed", False)
	for _, c := range names {
		st.assume(Not(Eq(callbackVar(c), UF("nilptr", "Ptr"))))
	}
	x.opaque = func(x *Exec, st *State, f Value, args []Value, site *callSite) []Outcome {
		o, ok := f.(OpaqueFunc)
		if !ok || len(args) != 2 || !isNodePtr(site.sig.Params().At(1).Type()) {
			return nil
		}
		for _, c := range names {
			if o.T == callbackVar(c) {
				x.oblige(st, Not(x.ghost(st, "failed")), "nothing is called after an error")
				x.oblige(st, isCtx(args[0]), "the callback gets the context")
				x.oblige(st, Eq(st.toTerm(args[1], site.sig.Params().At(1).Type()), n), "the callback gets the node")
				g := x.ghost(st, "called")
				x.setGhost(st, "called", SeqCat(g.Sort, g, SeqUnit(Str(c))))
				return fallible(x, st)
			}
		}
		return nil
	}
	ptr := false
	fn := w.method("miniquery", "Visitor", "Visit", false)
	if fn == nil {
		fn, ptr = need(w.method("miniquery", "Visitor", "Visit", true), "Visitor.Visit"), true
	}
	var recv Value = callbacks(names, t, func(c string) Value { return OpaqueFunc{callbackVar(c)} })
	if ptr {
		recv = PtrVal{Obj: st.alloc(t, recv)}
	}
	for _, o := range x.call(st, fn, nil, []Value{recv, OpaqueIface{"ctx"}, tv(n)}) {
		c := x.specFn("Callback", sortOfRec[SNode].selName("Type", n))
		known := Not(Eq(c, Str("")))
		called := x.ghost(o.st, "called")
		x.oblige(o.st, Implies(known, Eq(called, SeqUnit(c))), "the callback of the type is called, once, and no other")
		x.oblige(o.st, Implies(Not(known), And(Eq(called, SeqEmpty(called.Sort)), Not(x.isNil(o.st, o.res[0])))), "a node of unknown type is an error")
		x.oblige(o.st, Implies(known, Eq(Not(x.isNil(o.st, o.res[0])), x.ghost(o.st, "failed"))), "the result of the callback is returned")
		x.reached(o.st, "a visit")
	}
	return x
}

// selName selects a field by name.
func (r *record) selName(name string, t *Term) *Term {
	u := r.typ.Underlying().(*types.Struct)
	for i := range r.fields {
		if u.Field(i).Name() == name {
			return r.sel(i, t)
		}
	}
	unsup("no field %s of %v", name, r.typ)
	return nil
}

// verifyInit checks Visitor.Init: it is executed for every choice of callbacks
// that are set, and every callback that it sets is executed for every node of its
// type.
func verifyInit(w *World) *Exec {
	names, t := w.visitorFields()
	x := &Exec{w: w, unit: "Visitor.Init", maxSteps: 3000000, focus: focusOn("Elems")}
	x.loops = []loopRule{{name: "children", mk: func(x *Exec, env *loopEnv) []*Term {
		if x.ghosts["visited"] == 0 || env.st.heap[x.ghosts["visited"]] == nil {
			return nil
		}
		var out []*Term
		for _, s := range env.seqs {
			if sortOf(s.Elem) != SNode {
				continue
			}
			xs := env.st.sliceTerm(s)
			for _, i := range env.ints {
				if xs == nil {
					out = append(out, nil)
					continue
				}
				g := x.ghost(env.st, "visited")
				out = append(out, SeqCat(g.Sort, g, x.specFn("Elems", xs, i)))
			}
		}
		return out
	}}}
	fn := need(w.method("miniquery", "Visitor", "Init", true), "Visitor.Init")
	st := newState()
	v := PtrVal{Obj: st.alloc(t, callbacks(names, t, func(c string) Value { return OpaqueFunc{callbackVar(c)} }))}
	type def struct {
		name string
		f    FuncVal
		st   *State
	}
	defs := map[string]def{}
	kept := map[string]*Term{}
	isSet := map[string]*Term{}
	for _, c := range names {
		kept[c], isSet[c] = True, True
	}
	mark := objN + 1
	outs := x.call(st, fn, nil, []Value{v})
	for _, o := range outs {
		for i, c := range names {
			val := x.field(o.st, o.st.heap[v.Obj].Val, i)
			switch val := val.(type) {
			case OpaqueFunc:
				if val.T != callbackVar(c) {
					kept[c] = False
				}
				if o.st.simp(Eq(val.T, UF("nilptr", "Ptr"))) != False && c != "TerminateExpression" {
					isSet[c] = False
				}
			case FuncVal:
				if val.Fn == nil {
					isSet[c] = False
					continue
				}
				if o.st.simp(Eq(callbackVar(c), UF("nilptr", "Ptr"))) != True {
					kept[c] = False
				}
				k := &keyer{st: o.st, mark: mark, ren: map[int]int{}}
				key := c + " " + val.key(k)
				for i := 0; i < len(k.todo); i++ {
					key += "\n" + o.st.heap[k.todo[i]].Val.key(k)
				}
				defs[key] = def{c, val, o.st}
			default:
				unsup("a callback that is %T", val)
			}
		}
	}
	if len(outs) == 0 {
		unsup("Init has no outcome")
	}
	x.reached(outs[0].st.clone(), "initialised")
	for _, c := range names {
		s := newState()
		x.oblige(s, kept[c], "a callback that was set is kept: "+c)
		x.oblige(s, isSet[c], "a callback that was not set gets a default: "+c)
	}
	visit := w.method("miniquery", "Visitor", "Visit", false)
	visitP := w.method("miniquery", "Visitor", "Visit", true)
	keys := make([]string, 0, len(defs))
	for k := range defs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	nodeT := types.NewPointer(w.pegNamed("Node"))
	for _, k := range keys {
		d := defs[k]
		if d.name == "TerminateExpression" {
			continue
		}
		st := d.st.clone()
		st.pc, st.known, st.eqc = nil, map[int]bool{}, map[int]*Term{}
		// the visitor may be changed after Init
		now := callbacks(names, t, func(c string) Value { return OpaqueFunc{Fresh("now_"+c, "Ptr")} })
		st.heap[v.Obj] = &Obj{t, now}
		x.newGhost(st, "visited", SeqEmpty(seqOf(SNode)))
		x.newGhost(st, "failed", False)
		x.lookup = func(x *Exec, fn *ssa.Function, args []Value) Handler {
			if fn != visit && fn != visitP {
				return nil
			}
			return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
				same := False
				switch r := a[0].(type) {
				case StructVal:
					kk := &keyer{st: st, mark: 1 << 60}
					same = Bool(r.key(kk) == st.heap[v.Obj].Val.key(kk))
				case PtrVal:
					same = Bool(r.Obj == v.Obj && len(r.Path) == 0)
				}
				c := st.toTerm(a[2], nodeT)
				x.oblige(st, same, d.name+" walks with the visitor as it is")
				x.oblige(st, Not(x.ghost(st, "failed")), d.name+" stops at the first error")
				x.oblige(st, isCtx(a[1]), d.name+" passes the context on")
				x.oblige(st, Not(Eq(c, nilNode())), "precondition of Visit: the node is not nil")
				g := x.ghost(st, "visited")
				x.setGhost(st, "visited", SeqCat(g.Sort, g, SeqUnit(c)))
				return fallible(x, st)
			}
		}
		n := Fresh("n", SNode)
		st.assume(Not(Eq(n, nilNode())))
		st.assume(Or(x.specFn("WF", n), x.specFn("IsOperator", n)))
		st.assume(Eq(x.specFn("Callback", sortOfRec[SNode].selName("Type", n)), Str(d.name)))
		kids := x.specFn("Kids", n)
		for _, o := range x.callValue(st, d.f, []Value{OpaqueIface{"ctx"}, tv(n)}, &callSite{}) {
			failed, visited := x.ghost(o.st, "failed"), x.ghost(o.st, "visited")
			x.reached(o.st.clone(), d.name+" walks")
			x.oblige(o.st, Eq(Not(x.isNil(o.st, o.res[0])), failed), d.name+" returns the error")
			x.oblige(o.st, Implies(Not(failed), Eq(visited, kids)), d.name+" walks every child in order")
			x.oblige(o.st, Implies(failed, mk("seq.prefixof", "", 0, SBool, visited, kids)), d.name+" walks the children in order up to the first error")
		}
	}
	return x
}
