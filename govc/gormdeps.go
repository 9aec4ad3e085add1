package main

import (
	"go/types"
)

// verifyGormDeps checks what the contracts say of AddError and of the condition that
// Where makes of a text against the source of gorm.
func verifyGormDeps(w *World) *Exec {
	x := &Exec{w: w, unit: "errors and conditions of gorm", maxSteps: 50000}
	p := w.pkgs["gorm.io/gorm"]
	if p == nil {
		unsup("no source of gorm")
	}
	x.opaque = func(x *Exec, st *State, f Value, args []Value, site *callSite) []Outcome {
		if site.name == "gorm.io/gorm.ErrorTranslator.Translate" || site.name == "gorm.ErrorTranslator.Translate" {
			return one(st, OpaqueIface{"error"}) // an error stays an error
		}
		return nil
	}
	dbT, stT := p.Type("DB").Type(), p.Type("Statement").Type()
	cfT := p.Type("Config").Type()
	for _, isErr := range []bool{true, false} {
		for _, had := range []bool{true, false} {
			st := newState()
			cf := PtrVal{Obj: st.alloc(cfT, zero(cfT))}
			x.setField(st, cf, "TranslateError", tv(Var("translate", SBool)))
			x.setField(st, cf, "Dialector", OpaqueIface{"dialect"})
			db := PtrVal{Obj: st.alloc(dbT, zero(dbT))}
			x.setField(st, db, "Config", cf)
			if had {
				x.setField(st, db, "Error", OpaqueIface{"error"})
			}
			var e Value = IfaceVal{}
			if isErr {
				e = OpaqueIface{"error"}
			}
			fn := need(w.prog.LookupMethod(types.NewPointer(dbT), p.Pkg, "AddError"), "DB.AddError")
			for _, o := range x.call(st, fn, nil, []Value{db, e}) {
				x.reached(o.st.clone(), "an error is added")
				x.oblige(o.st.clone(), Eq(Not(x.isNil(o.st, x.getField(o.st, db, "Error"))), Bool(isErr || had)), "AddError keeps what is an error")
			}
		}
	}
	// the condition of a text with a placeholder, or without values, that is no number
	x.lookup = textFns
	text := Var("text", SStr)
	for _, vals := range []*Term{SeqEmpty(seqOf(SAny)), Var("vals", seqOf(SAny))} {
		valsT := types.NewSlice(types.NewInterfaceType(nil, nil))
		fn := need(w.prog.LookupMethod(types.NewPointer(stT), p.Pkg, "BuildCondition"), "Statement.BuildCondition")
		st := newState()
		s := PtrVal{Obj: st.alloc(stT, zero(stT))}
		st.assume(Not(Eq(text, Str(""))))
		st.assume(Not(UF("atoi_ok", SBool, text)))
		if vals.Op == "var" {
			st.assume(Lt(Int(0), SeqLen(vals)))
			st.assume(UF("strings.Contains", SBool, text, Str("?")))
		}
		for _, o := range x.call(st, fn, nil, []Value{s, IfaceVal{types.Typ[types.String], tv(text)}, fromTerm(vals, valsT)}) {
			x.reached(o.st.clone(), "a condition")
			ok := False
			if l, isList := o.res[0].(SliceVal); isList {
				if segs, known := o.st.segs(l); known && len(segs) == 1 && segs[0].Item != nil {
					if e, isVal := segs[0].Item.(IfaceVal); isVal && typeName(e.Typ) == "gorm.io/gorm/clause.Expr" {
						v := e.V.(StructVal)
						ok = And(Eq(x.term(v.Fields[fieldNo(v.Typ, "SQL")]), text), Eq(o.st.toTerm(v.Fields[fieldNo(v.Typ, "Vars")], valsT), vals))
					}
				}
			}
			x.oblige(o.st, ok, "Where takes the text and the values as they are")
		}
	}
	return x
}
