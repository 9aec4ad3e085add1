package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const SExpr Sort = "Expr"

// parseContract takes calls of Parse by its contract, which the units of the
// parser establish.
func parseContract(w *World) func(fn *ssa.Function) Handler {
	parse := w.fn("miniquery.Parse")
	return func(fn *ssa.Function) Handler {
		if parse == nil || fn != parse {
			return nil
		}
		return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			q := x.term(a[0])
			ok, n := x.specFn("Valid", q), x.specFn("Tree", q)
			bad := st.clone()
			var out []Outcome
			if st.assume(ok) {
				st.assume(Not(Eq(n, nilNode())))
				st.assume(x.specFn("WF", n))
				out = append(out, Outcome{st, []Value{tv(n), IfaceVal{}}})
			}
			if bad.assume(Not(ok)) {
				out = append(out, Outcome{bad, []Value{tv(nilNode()), OpaqueIface{"error"}}})
			}
			return out
		}
	}
}

// contracts combines the contracts of functions of the repository.
func contracts(cs ...func(fn *ssa.Function) Handler) func(x *Exec, fn *ssa.Function, args []Value) Handler {
	return func(x *Exec, fn *ssa.Function, args []Value) Handler {
		for _, c := range cs {
			if h := c(fn); h != nil {
				return h
			}
		}
		return nil
	}
}

func init() {
	logger := func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
		return one(st, OpaquePtr{Fresh("logger", "Ptr")})
	}
	logs := func(x *Exec, st *State, a []Value, site *callSite) []Outcome { return one(st) }
	for n, h := range map[string]Handler{
		"log/slog.With": logger, "log/slog.Default": logger, "(*log/slog.Logger).With": logger,
		"(*log/slog.Logger).Error": logs, "(*log/slog.Logger).Warn": logs, "(*log/slog.Logger).Info": logs, "(*log/slog.Logger).Debug": logs,
		"log/slog.Error": logs, "log/slog.Warn": logs, "log/slog.Info": logs, "log/slog.Debug": logs,
	} {
		depHandlers[n] = h
	}
}

// qlExec prepares the execution of the entql builder.
func qlExec(w *World, unit string, recs map[*ssa.Function]bool) *Exec {
	r := &role{
		name: "entql",
		find: func(x *Exec, c *compFinder) { c.list("stack", SExpr) },
		pre:  func(x *Exec, n *Term) *Term { return x.specFn("WF", n) },
		ok:   func(x *Exec, n *Term) *Term { return x.specFn("espec.QLOK", n) },
		upd: map[string]func(x *Exec, n, old *Term) *Term{
			"stack": func(x *Exec, n, old *Term) *Term {
				return SeqCat(old.Sort, old, SeqUnit(x.specFn("espec.QL", n)))
			},
		},
		names: map[string]string{
			"stack": "the expression of the node is pushed",
			"ok":    "what entql cannot express is an error",
			"error": "what entql can express is no error",
		},
	}
	x := &Exec{w: w, unit: unit, maxSteps: 400000, role: r, recs: recs, focus: focusOn("espec.QL", "espec.QLOK", "espec.QLPred", "WF")}
	x.lookup = contracts(parseContract(w), valueContract(w))
	return x
}

// verifyQLBuild checks the Build method of the entql builder.
func verifyQLBuild(w *World) *Exec {
	return withRoles(func(recs map[*ssa.Function]bool) *Exec {
		x := qlExec(w, "entmq.MiniQLToEntQLBuilder.Build", recs)
		fn := need(w.method("entmq", "MiniQLToEntQLBuilder", "Build", true), "MiniQLToEntQLBuilder.Build")
		st := newState()
		q := Var("query", SStr)
		mb := x.entBuilder(st, fn.Signature.Recv().Type(), map[string]Value{"Query": tv(q)})
		x.qlResult(x.call(st, fn, nil, []Value{mb}), q, fn)
		return x
	})
}

// entBuilder is a builder with some fields set, all others are zero.
func (x *Exec) entBuilder(st *State, ptr types.Type, fields map[string]Value) Value {
	t := ptr.(*types.Pointer).Elem()
	v, ok := zero(t).(StructVal)
	if !ok {
		unsup("%v is no struct", t)
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if f, ok := fields[u.Field(i).Name()]; ok {
			v.Fields[i] = f
			delete(fields, u.Field(i).Name())
		}
	}
	if len(fields) > 0 {
		unsup("%v has other fields", t)
	}
	return PtrVal{Obj: st.alloc(t, v)}
}

// qlResult checks the predicate and the error of a query.
func (x *Exec) qlResult(outs []Outcome, q *Term, fn *ssa.Function) {
	ok := x.specFn("espec.QLValid", q)
	empty := Eq(q, Str(""))
	pt := fn.Signature.Results().At(0).Type()
	for _, o := range outs {
		x.byNil(o, 1, func(o Outcome, isNil bool) {
			p := o.st.toTerm(o.res[0], pt)
			if isNil {
				x.reached(o.st.clone(), "a predicate")
				x.oblige(o.st, Or(empty, ok), "what entql cannot express is an error")
				x.oblige(o.st, Eq(p, Ite(empty, Cons("e_nil", SExpr), x.specFn("espec.QL", x.specFn("Tree", q)))), "the predicate is the one of the query")
				return
			}
			x.reached(o.st.clone(), "an error")
			x.oblige(o.st, And(Not(empty), Not(ok)), "what entql can express is no error")
			x.oblige(o.st, Eq(p, Cons("e_nil", SExpr)), "with an error there is no predicate")
		})
	}
}

// verifyBuildEntQL checks BuildEntQL.
func verifyBuildEntQL(w *World) *Exec {
	return withRoles(func(recs map[*ssa.Function]bool) *Exec {
		x := qlExec(w, "entmq.BuildEntQL", recs)
		fn := need(w.fn("entmq.BuildEntQL"), "BuildEntQL")
		q := Var("query", SStr)
		x.qlResult(x.call(newState(), fn, nil, []Value{tv(q)}), q, fn)
		return x
	})
}

// overTexts makes the terms of a loop over a list of texts.
func overTexts(f func(x *Exec, env *loopEnv, qs, i *Term) *Term) func(x *Exec, env *loopEnv) []*Term {
	return func(x *Exec, env *loopEnv) []*Term {
		var out []*Term
		for _, s := range env.seqs {
			if sortOf(s.Elem) != SStr {
				continue
			}
			qs := env.st.sliceTerm(s)
			for _, i := range env.ints {
				if qs == nil {
					out = append(out, nil)
				} else {
					out = append(out, f(x, env, qs, i))
				}
			}
		}
		return out
	}
}

// verifyApplyEntQL checks ApplyEntQL.
func verifyApplyEntQL(w *World) *Exec {
	return withRoles(func(recs map[*ssa.Function]bool) *Exec {
		x := qlExec(w, "entmq.ApplyEntQL", recs)
		for _, f := range []string{"espec.QLApplied", "espec.QLAllOK"} {
			x.focus[f] = true
		}
		fn := need(w.fn("entmq.ApplyEntQL"), "ApplyEntQL")
		st := newState()
		x.newGhost(st, "applied", SeqEmpty(seqOf(SExpr)))
		x.opaque = func(x *Exec, st *State, f Value, args []Value, site *callSite) []Outcome {
			if i, ok := f.(OpaqueIface); !ok || i.Name != "target" || len(args) != 1 {
				return nil
			}
			g := x.ghost(st, "applied")
			x.setGhost(st, "applied", SeqCat(g.Sort, g, SeqUnit(st.toTerm(args[0], site.sig.Params().At(0).Type()))))
			return one(st)
		}
		x.loops = []loopRule{
			{name: "applied", mk: overTexts(func(x *Exec, env *loopEnv, qs, i *Term) *Term {
				g := x.ghost(env.st, "applied")
				return SeqCat(g.Sort, g, x.specFn("espec.QLApplied", qs, i))
			})},
			{name: "all valid", mk: overTexts(func(x *Exec, env *loopEnv, qs, i *Term) *Term { return x.specFn("espec.QLAllOK", qs, i) })},
		}
		qs := Var("queries", seqOf(SStr))
		for _, o := range x.call(st, fn, nil, []Value{OpaqueIface{"target"}, fromTerm(qs, types.NewSlice(types.Typ[types.String]))}) {
			ok := x.specFn("espec.QLAllOK", qs, Int(0))
			x.byNil(o, 0, func(o Outcome, isNil bool) {
				if isNil {
					x.reached(o.st.clone(), "all applied")
					x.oblige(o.st, ok, "an invalid query is an error")
				} else {
					x.reached(o.st.clone(), "an error")
					x.oblige(o.st, Not(ok), "valid queries are no error")
				}
				x.oblige(o.st, Eq(x.ghost(o.st, "applied"), x.specFn("espec.QLApplied", qs, Int(0))), "the predicates are applied in order up to the first error")
			})
		}
		return x
	})
}
