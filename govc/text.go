package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the functions on texts of the standard library.

// writeText appends to the builder that v points to.
func (x *Exec) writeText(st *State, v Value, t *Term) {
	b, ok := x.load(st, v, nil).(BuilderVal)
	if !ok {
		unsup("write to a %T", v)
	}
	x.store(st, v, BuilderVal{Concat(b.Text, t)})
	if x.onWrite != nil {
		x.onWrite(x, st, t)
	}
}

func runeText(st *State, r *Term) *Term {
	r = st.norm(r)
	switch r.Op {
	case "int":
		return Str(string(rune(r.I)))
	case "ite":
		return Ite(r.Args[0], runeText(st, r.Args[1]), runeText(st, r.Args[2]))
	}
	return UF("runetext", SStr, r)
}

// anyText is what fmt prints for a value with %v.
func anyText(st *State, t *Term) *Term {
	t = st.norm(t)
	pay := func(c string) *Term { return Sel(c, anyPayload[c].name, 0, anyPayload[c].sort, t) }
	r := UF("anytext", SStr, t)
	b := pay("any_bool")
	r = Ite(Is("any_bool", t), Ite(b, Str("true"), Str("false")), r)
	r = Ite(Is("any_int", t), UF("itoa", SStr, pay("any_int")), r)
	r = Ite(Is("any_str", t), pay("any_str"), r)
	return r
}

// printed is what fmt.Print writes for the arguments.
func (x *Exec) printed(st *State, v Value) *Term {
	s, ok := v.(SliceVal)
	if !ok {
		unsup("arguments %T", v)
	}
	segs, ok := st.segs(s)
	if !ok || len(segs) != 1 || segs[0].Item == nil {
		unsup("print of other than one value")
	}
	return anyText(st, st.toTerm(segs[0].Item, s.Elem))
}

// formatted is what fmt.Sprintf makes of a fixed format with %s, %v and %d.
func (x *Exec) formatted(st *State, f *Term, v Value) *Term {
	s, ok := v.(SliceVal)
	f = st.norm(f)
	if !ok || f.Op != "str" {
		unsup("format that is not fixed")
	}
	segs, ok := st.segs(s)
	if !ok {
		unsup("arguments of a format")
	}
	var parts []*Term
	format := f.Name
	for format != "" {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			parts = append(parts, Str(format))
			break
		}
		parts = append(parts, Str(format[:i]))
		if i+1 >= len(format) {
			unsup("format %q", f.Name)
		}
		verb := format[i+1]
		format = format[i+2:]
		if verb == '%' {
			parts = append(parts, Str("%"))
			continue
		}
		if len(segs) == 0 || segs[0].Item == nil {
			unsup("arguments of format %q", f.Name)
		}
		if i, ok := segs[0].Item.(IfaceVal); ok && i.Typ != nil {
			if _, named := types.Unalias(i.Typ).(*types.Named); named && sortOf(i.Typ) == SInt {
				parts = append(parts, Fresh("formatted", SStr))
				segs = segs[1:]
				continue
			}
		}
		t := st.norm(st.toTerm(segs[0].Item, s.Elem))
		segs = segs[1:]
		switch {
		case t.Op == "cons" && t.Name == "any_str" && (verb == 's' || verb == 'v'):
			parts = append(parts, t.Args[0])
		case t.Op == "cons" && t.Name == "any_int" && (verb == 'd' || verb == 'v'):
			parts = append(parts, UF("itoa", SStr, t.Args[0]))
		default:
			unsup("format %q", f.Name)
		}
	}
	if len(segs) > 0 {
		unsup("arguments of format %q", f.Name)
	}
	return Concat(parts...)
}

func deref(v Value) Value {
	if i, ok := v.(IfaceVal); ok && i.Typ != nil {
		return i.V
	}
	return v
}

func init() {
	strSlice := types.NewSlice(types.Typ[types.String])
	wrote := func(st *State) []Outcome { return one(st, tv(Fresh("wrote", SInt)), IfaceVal{}) }
	for n, h := range map[string]Handler{
		"(*strings.Builder).WriteString": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.writeText(st, a[0], x.term(a[1]))
			return wrote(st)
		},
		"(*strings.Builder).WriteRune": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.writeText(st, a[0], runeText(st, x.term(a[1])))
			return wrote(st)
		},
		"(*strings.Builder).WriteByte": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			t := st.norm(x.term(a[1]))
			if t.Op != "int" || t.I > 127 {
				unsup("byte %v", t)
			}
			x.writeText(st, a[0], Str(string(rune(t.I))))
			return one(st, IfaceVal{})
		},
		"(*strings.Builder).String": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, tv(x.load(st, a[0], nil).(BuilderVal).Text))
		},
		"(*strings.Builder).Len": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, tv(StrLen(x.load(st, a[0], nil).(BuilderVal).Text)))
		},
		"(*strings.Builder).Grow": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.oblige(st, Le(Int(0), x.term(a[1])), "no-panic: Grow of a negative number")
			return one(st)
		},
		"(*strings.Builder).Reset": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.store(st, a[0], BuilderVal{Str("")})
			return one(st)
		},
		"fmt.Fprint": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.writeText(st, deref(a[0]), x.printed(st, a[1]))
			return wrote(st)
		},
		"io.WriteString": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.writeText(st, deref(a[0]), x.term(a[1]))
			return wrote(st)
		},
		"fmt.Fprintf": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			x.writeText(st, deref(a[0]), x.formatted(st, x.term(a[1]), a[2]))
			return wrote(st)
		},
		"fmt.Sprintf":  pure(func(x *Exec, st *State, a []Value) Value { return tv(x.formatted(st, x.term(a[0]), a[1])) }),
		"fmt.Sprint":   pure(func(x *Exec, st *State, a []Value) Value { return tv(x.printed(st, a[0])) }),
		"strconv.Itoa": pure(func(x *Exec, st *State, a []Value) Value { return tv(UF("itoa", SStr, x.term(a[0]))) }),
		"strconv.FormatBool": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(Ite(x.term(a[0]), Str("true"), Str("false")))
		}),
		"strings.ContainsRune": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(containsText(x.term(a[0]), runeText(st, x.term(a[1]))))
		}),
		"strings.Contains": pure(func(x *Exec, st *State, a []Value) Value { return tv(containsText(x.term(a[0]), x.term(a[1]))) }),
		"strings.Join": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(x.w.specTerms(x.w.spec("JoinFrom"), st.toTerm(a[0], strSlice), Int(0), x.term(a[1]))[0])
		}),
		"strings.TrimSpace": pure(func(x *Exec, st *State, a []Value) Value { return tv(UF("trimspace", SStr, x.term(a[0]))) }),
		"strings.TrimPrefix": pure(func(x *Exec, st *State, a []Value) Value {
			s, p := x.term(a[0]), x.term(a[1])
			n := StrLen(p)
			return tv(Ite(mk("str.prefixof", "", 0, SBool, p, s), mk("str.substr", "", 0, SStr, s, n, Sub(StrLen(s), n)), s))
		}),
		"strings.EqualFold": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(UF("equalfold", SBool, x.term(a[0]), x.term(a[1])))
		}),
		"strings.ToUpper": pure(func(x *Exec, st *State, a []Value) Value {
			if u := changeCase("toupper", st.norm(x.term(a[0]))); u != nil {
				return tv(u)
			}
			return tv(UF("toupper", SStr, x.term(a[0])))
		}),
		"strings.ToLower": pure(func(x *Exec, st *State, a []Value) Value {
			if u := changeCase("tolower", st.norm(x.term(a[0]))); u != nil {
				return tv(u)
			}
			return tv(UF("tolower", SStr, x.term(a[0])))
		}),
		"github.com/pkg/errors.Errorf": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, OpaqueIface{"error"})
		},
		"github.com/pkg/errors.New": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, OpaqueIface{"error"})
		},
		"github.com/pkg/errors.Wrapf":     wrapError,
		"github.com/pkg/errors.Wrap":      wrapError,
		"github.com/pkg/errors.WithStack": wrapError,
	} {
		depHandlers[n] = h
	}
}

// wrapError: nil stays nil.
func wrapError(x *Exec, st *State, a []Value, site *callSite) []Outcome {
	switch n := st.simp(x.isNil(st, a[0])); n {
	case True:
		return one(st, IfaceVal{})
	case False:
		return one(st, OpaqueIface{"error"})
	default:
		return one(st, MaybeErr{Not(n)})
	}
}

func containsText(s, p *Term) *Term { return UF("contains", SBool, s, p) }

// texts are the texts that a loop can extend: builders and local variables.
func (e *loopEnv) texts() []*Term {
	var out []*Term
	var ids []int
	for id, o := range e.st.heap {
		if _, ok := o.Val.(BuilderVal); ok {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		out = append(out, e.st.heap[id].Val.(BuilderVal).Text)
	}
	for _, ins := range e.h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := e.regs[ph].(TermVal); ok && t.T.Sort == SStr {
			out = append(out, t.T)
		}
	}
	return out
}

// joined are the texts of lists that are joined after the loop.
func (e *loopEnv) joined(x *Exec) []*Term {
	var seps []*Term
	for _, b := range e.fr.fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strings.Join" {
				continue
			}
			if k, ok := c.Call.Args[1].(*ssa.Const); ok {
				seps = append(seps, x.term(constVal(k)))
			}
		}
	}
	var out []*Term
	for _, s := range e.seqs {
		if sortOf(s.Elem) != SStr {
			continue
		}
		for _, sep := range seps {
			if l := e.st.sliceTerm(s); l != nil {
				out = append(out, x.specFn("JoinFrom", l, Int(0), sep))
			} else {
				out = append(out, Var("no_list", SStr))
			}
		}
	}
	return out
}

// started are the conditions that may tell that something was written to t.
func (e *loopEnv) started(t *Term) []*Term {
	out := []*Term{Not(Eq(t, Str("")))}
	for _, ins := range e.h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		switch v := e.regs[ph].(type) {
		case TermVal:
			switch {
			case v.T.Sort == SBool:
				out = append(out, v.T, Not(v.T))
			case v.T.Sort == SStr:
				out = append(out, Not(Eq(v.T, Str(""))))
			case v.T.Sort == SInt:
				out = append(out, Lt(Int(0), v.T))
			}
		case SliceVal:
			out = append(out, Lt(Int(0), v.Len))
		}
	}
	return out
}

// specFn applies a specification function with one result.
func (x *Exec) specFn(name string, args ...*Term) *Term {
	return x.w.specTerms(x.w.spec(name), args...)[0]
}

func need(fn *ssa.Function, what string) *ssa.Function {
	if fn == nil {
		panic(missing{what})
	}
	return fn
}

func focusOn(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

// verifyValue checks Node.Value.
func verifyValue(w *World) *Exec {
	return withRoles(func(recs map[*ssa.Function]bool) *Exec {
		r := &role{
			name: "Value",
			pre:  func(x *Exec, n *Term) *Term { return x.specFn("IsValue", n) },
			res:  func(x *Exec, n *Term) *Term { return x.specFn("ValueOf", n) },
			rest: map[string][]func(x *Exec, xs, i *Term) *Term{
				"seq Any": {func(x *Exec, xs, i *Term) *Term { return x.specFn("ValuesFrom", xs, i) }},
			},
			names: map[string]string{"result": "the value is the one of the literal"},
		}
		x := &Exec{w: w, unit: "Node.Value", maxSteps: 200000, role: r, recs: recs, focus: focusOn("ValueOf", "ValuesFrom")}
		x.loops = roleLoops(r)
		fn := need(w.method("miniquery", "Node", "Value", false), "Node.Value")
		if len(recs) == 0 {
			recs[fn] = true // the contract the other units use
		}
		st := newState()
		n := Var("n", SNode)
		st.assume(Not(Eq(n, nilNode())))
		st.assume(r.pre(x, n))
		for _, o := range x.call(st, fn, nil, []Value{tv(n)}) {
			x.reached(o.st, "a value")
		}
		return x
	})
}

// verifyString checks that Node.String gives a text for every tree; what it says
// is left open.
func verifyString(w *World) *Exec {
	return withRoles(func(recs map[*ssa.Function]bool) *Exec {
		r := &role{
			name: "String",
			pre:  func(x *Exec, n *Term) *Term { return Or(x.specFn("WF", n), x.specFn("IsOperator", n)) },
			res:  func(x *Exec, n *Term) *Term { return nil },
		}
		x := &Exec{w: w, unit: "Node.String", maxSteps: 200000, role: r, recs: recs, focus: focusOn("WF")}
		value := valueContract(w)
		x.lookup = func(x *Exec, fn *ssa.Function, args []Value) Handler {
			if shortName(fn) == "fmt.Fprint" {
				return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
					if b, ok := deref(a[0]).(PtrVal); ok {
						if _, ok := x.load(st, b, nil).(BuilderVal); ok {
							x.store(st, b, BuilderVal{Fresh("message", SStr)})
							return one(st, tv(Fresh("written", SInt)), MaybeErr{Fresh("failed", SBool)})
						}
					}
					unsup("Fprint to %T", a[0])
					return nil
				}
			}
			return value(fn)
		}
		x.loops = roleLoops(r)
		fn := need(w.method("miniquery", "Node", "String", false), "Node.String")
		if len(recs) == 0 {
			recs[fn] = true // the contract the other units use
		}
		st := newState()
		n := Var("n", SNode)
		st.assume(Not(Eq(n, nilNode())))
		st.assume(r.pre(x, n))
		for _, o := range x.call(st, fn, nil, []Value{tv(n)}) {
			x.reached(o.st, "a text")
		}
		return x
	})
}

// valueContract takes calls of Node.Value by its contract.
func valueContract(w *World) func(fn *ssa.Function) Handler {
	val := w.method("miniquery", "Node", "Value", false)
	ptr := w.method("miniquery", "Node", "Value", true)
	return func(fn *ssa.Function) Handler {
		if val == nil || fn != val && fn != ptr {
			return nil
		}
		return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			n := st.toTerm(a[0], types.NewPointer(x.w.pegNamed("Node")))
			x.oblige(st, Not(Eq(n, nilNode())), "no-panic: nil node")
			x.oblige(st, x.specFn("IsValue", n), "precondition of Value: the node is a value")
			return one(st, tv(x.specFn("ValueOf", n)))
		}
	}
}

// verifyBuild checks Build.
func verifyBuild(w *World) *Exec {
	return withRoles(func(recs map[*ssa.Function]bool) *Exec {
		r := &role{
			name: "Build",
			find: func(x *Exec, c *compFinder) { c.text("text") },
			pre:  func(x *Exec, n *Term) *Term { return Or(x.specFn("WF", n), x.specFn("IsOperator", n)) },
			upd: map[string]func(x *Exec, n, old *Term) *Term{
				"text": func(x *Exec, n, old *Term) *Term { return Concat(old, x.specFn("BuildText", n)) },
			},
			rest: map[string][]func(x *Exec, xs, i *Term) *Term{
				"text": {
					func(x *Exec, xs, i *Term) *Term { return x.specFn("BuildFrom", xs, i) },
					func(x *Exec, xs, i *Term) *Term { return x.specFn("BuildRest", xs, i) },
				},
			},
			names: map[string]string{"text": "the text of the node is written"},
		}
		val := valueContract(w)
		x := &Exec{w: w, unit: "Build", maxSteps: 400000, role: r, recs: recs, focus: focusOn("BuildText", "BuildFrom", "BuildRest", "WF", "ValueOf")}
		x.lookup = func(x *Exec, fn *ssa.Function, args []Value) Handler { return val(fn) }
		x.loops = roleLoops(r)
		fn := need(w.fn("miniquery.Build"), "Build")
		st := newState()
		n := Var("n", SNode)
		st.assume(Not(Eq(n, nilNode())))
		st.assume(x.specFn("WF", n))
		for _, o := range x.call(st, fn, nil, []Value{tv(n)}) {
			x.reached(o.st, "a text")
			x.oblige(o.st, Eq(x.term(o.res[0]), x.specFn("BuildText", n)), "the text of the query is returned")
		}
		return x
	})
}

// verifyJoin checks Join.
func verifyJoin(w *World) *Exec {
	x := &Exec{w: w, unit: "Join", maxSteps: 100000, focus: focusOn("Conj", "JoinFrom")}
	x.loops = []loopRule{{name: "Conj", mk: func(x *Exec, env *loopEnv) []*Term {
		var out []*Term
		for _, s := range env.seqs {
			if sortOf(s.Elem) != SStr {
				continue
			}
			qs := env.st.sliceTerm(s)
			for _, t := range append(env.texts(), env.joined(x)...) {
				for _, more := range append(env.started(t), True) {
					for _, i := range env.ints {
						if qs == nil {
							out = append(out, nil)
							continue
						}
						out = append(out, Concat(t, x.specFn("Conj", qs, i, more)))
					}
				}
			}
		}
		return out
	}}}
	fn := need(w.fn("miniquery.Join"), "Join")
	st := newState()
	qs := Var("queries", seqOf(SStr))
	for _, o := range x.call(st, fn, nil, []Value{fromTerm(qs, types.NewSlice(types.Typ[types.String]))}) {
		x.reached(o.st, "a text")
		x.oblige(o.st, Eq(x.term(o.res[0]), x.specFn("Joined", qs)), "the text is the conjunction")
	}
	return x
}

// changeCase computes strings.ToUpper or strings.ToLower of an ASCII constant.
func changeCase(f string, t *Term) *Term {
	if t.Op != "str" {
		return nil
	}
	for i := 0; i < len(t.Name); i++ {
		if t.Name[i] > 127 {
			return nil
		}
	}
	if f == "toupper" {
		return Str(strings.ToUpper(t.Name))
	}
	return Str(strings.ToLower(t.Name))
}
