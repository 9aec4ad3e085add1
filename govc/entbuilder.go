package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// verifyEntBuilder checks what the contracts say of AddError, Err and Ident of ent's
// builder against their source.
func verifyEntBuilder(w *World) *Exec {
	x := &Exec{w: w, unit: "builder of ent", maxSteps: 20000}
	x.lookup = textFns
	x.opaque = func(x *Exec, st *State, f Value, args []Value, site *callSite) []Outcome {
		if site.name == "error.Error" {
			return one(st, tv(Fresh("message", SStr)))
		}
		return nil
	}
	bt := w.entType("Builder")
	method := func(n string) *ssa.Function {
		return need(w.prog.LookupMethod(types.NewPointer(bt), w.pkgs[entSQL].Pkg, n), "Builder."+n)
	}
	anyT := types.NewInterfaceType(nil, nil)
	text, total, args := Var("text", SStr), Var("total", SInt), Var("args", seqOf(SAny))
	errs, d, name := Var("errs", seqOf(SAny)), Var("dialect", SStr), Var("name", SStr)
	start := func() (*State, Value) {
		st := newState()
		b := PtrVal{Obj: st.alloc(bt, zero(bt))}
		x.setBuilderText(st, b, text)
		x.setField(st, b, "total", tv(total))
		x.setField(st, b, "dialect", tv(d))
		x.setField(st, b, "args", fromTerm(args, types.NewSlice(anyT)))
		e := x.getField(st, b, "errs").(SliceVal)
		x.setField(st, b, "errs", fromTerm(errs, types.NewSlice(e.Elem)))
		return st, b
	}
	same := func(st *State, b Value, what string, but string) {
		ok := And(Eq(x.term(x.getField(st, b, "total")), total), Eq(st.toTerm(x.getField(st, b, "args"), types.NewSlice(anyT)), args),
			Eq(x.term(x.getField(st, b, "dialect")), d))
		if but != "text" {
			ok = And(ok, Eq(x.builderText(st, b), text))
		}
		if but != "errs" {
			ok = And(ok, Eq(x.errCount(st, b), SeqLen(errs)))
		}
		x.oblige(st.clone(), ok, what+" changes nothing else")
	}
	is := func(st *State, v, b Value) *Term {
		p, ok := v.(PtrVal)
		return Bool(ok && p.Obj == b.(PtrVal).Obj && len(p.Path) == 0)
	}
	for _, isErr := range []bool{true, false} {
		st, b := start()
		var e Value = IfaceVal{}
		n := SeqLen(errs)
		if isErr {
			e, n = OpaqueIface{"error"}, Add(n, Int(1))
		}
		for _, o := range x.call(st, method("AddError"), nil, []Value{b, e}) {
			x.reached(o.st.clone(), "an error is added")
			x.oblige(o.st.clone(), Eq(x.errCount(o.st, b), n), "AddError counts what is an error")
			x.oblige(o.st.clone(), is(o.st, o.res[0], b), "AddError gives its builder")
			same(o.st, b, "AddError", "errs")
		}
	}
	st, b := start()
	for _, o := range x.call(st, method("Err"), nil, []Value{b}) {
		x.reached(o.st.clone(), "the errors are read")
		x.oblige(o.st.clone(), Eq(Not(x.isNil(o.st, o.res[0])), Lt(Int(0), SeqLen(errs))), "Err tells whether there is an error")
		same(o.st, b, "Err", "")
	}
	st, b = start()
	for _, o := range x.call(st, method("Ident"), nil, []Value{b, tv(name)}) {
		x.reached(o.st.clone(), "a name is written")
		// what is written, and the path to it, mention the dialect and the name only
		t := x.builderText(o.st, b)
		own := substitute(t, text, Str(""))
		x.oblige(o.st.clone(), Eq(t, Concat(text, own)), "Ident adds to the text")
		x.oblige(o.st.clone(), Bool(mentionsOnly(append(o.st.pc[:len(o.st.pc):len(o.st.pc)], own), d, name)), "what Ident writes depends on the dialect and the name")
		x.oblige(o.st.clone(), is(o.st, o.res[0], b), "Ident gives its builder")
		same(o.st, b, "Ident", "text")
	}
	return x
}

// mentionsOnly tells whether terms have no variables but the given ones.
func mentionsOnly(ts []*Term, vars ...*Term) bool {
	for _, t := range ts {
		if t.Op == "var" {
			ok := false
			for _, v := range vars {
				ok = ok || t == v
			}
			if !ok {
				return false
			}
		}
		if !mentionsOnly(t.Args, vars...) {
			return false
		}
	}
	return true
}

// textFns takes functions of package strings as functions of the texts they get.
func textFns(x *Exec, fn *ssa.Function, args []Value) Handler {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "strings" || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
		return nil
	}
	var ts []*Term
	for _, a := range args {
		t, ok := a.(TermVal)
		if !ok {
			return nil
		}
		ts = append(ts, t.T)
	}
	s := sortOf(fn.Signature.Results().At(0).Type())
	return func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
		return one(st, tv(UF("strings."+fn.Name(), s, ts...)))
	}
}
