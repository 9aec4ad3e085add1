package main

import (
	"go/types"
)

// depHandlers give the meaning of functions of dependencies, and of the
// primitives of the specification package.
var depHandlers map[string]Handler

func pure(f func(x *Exec, st *State, a []Value) Value) Handler {
	return func(x *Exec, st *State, args []Value, site *callSite) []Outcome {
		return one(st, f(x, st, args))
	}
}

// sorted is a list after sorting: of the elements only the number is known.
func sorted(x *Exec, st *State, a []Value, site *callSite) []Outcome {
	s, ok := a[0].(SliceVal)
	if !ok || s.Obj == 0 || s.Off != Int(0) || st.simp(Eq(s.Len, st.heap[s.Obj].Val.(SeqVal).len())) != True {
		unsup("sorting a part of a list")
	}
	o := st.heap[s.Obj]
	c := Fresh("sorted", seqOf(sortOf(s.Elem)))
	st.assume(Eq(SeqLen(c), s.Len))
	st.heap[s.Obj] = &Obj{o.Typ, SeqVal{s.Elem, []seg{{Block: c}}}}
	return one(st)
}

func (x *Exec) runesArg(st *State, v Value) *Term {
	return st.toTerm(v, types.NewSlice(types.Typ[types.Rune]))
}

func (x *Exec) boolArgs(st *State, v Value) []*Term {
	s := v.(SliceVal)
	segs, ok := st.segs(s)
	if !ok {
		unsup("connective of an unknown list")
	}
	var out []*Term
	for _, g := range segs {
		out = append(out, x.term(g.Item))
	}
	return out
}

func init() {
	depHandlers = map[string]Handler{
		"sort.Ints":   sorted,
		"slices.Sort": sorted,
		"slices.Clone": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			s, ok := a[0].(SliceVal)
			if !ok || isNilSlice(s) {
				unsup("a copy of an unknown list")
			}
			return x.append(st, zero(types.NewSlice(s.Elem)).(SliceVal), s)
		},
		"vspec/spec.At": pure(func(x *Exec, st *State, a []Value) Value { return tv(At(x.runesArg(st, a[0]), x.term(a[1]))) }),
		"vspec/spec.Text": pure(func(x *Exec, st *State, a []Value) Value {
			return tv(SubText(x.runesArg(st, a[0]), x.term(a[1]), x.term(a[2])))
		}),
		"vspec/spec.Lit": pure(func(x *Exec, st *State, a []Value) Value {
			var cs []*Term
			for k, c := range x.term(a[2]).Name {
				cs = append(cs, Eq(At(x.runesArg(st, a[0]), Add(x.term(a[1]), Int(int64(k)))), Int(int64(c))))
			}
			return tv(And(cs...))
		}),
		"vspec/spec.Word": pure(func(x *Exec, st *State, a []Value) Value {
			var cs []*Term
			for k, c := range x.term(a[2]).Name {
				at := At(x.runesArg(st, a[0]), Add(x.term(a[1]), Int(int64(k))))
				cs = append(cs, Or(Eq(at, Int(int64(c))), Eq(at, Int(int64(c-'a'+'A')))))
			}
			return tv(And(cs...))
		}),
		"vspec/spec.Range": pure(func(x *Exec, st *State, a []Value) Value {
			at := At(x.runesArg(st, a[0]), x.term(a[1]))
			return tv(And(Le(x.term(a[2]), at), Le(at, x.term(a[3]))))
		}),
		"vspec/spec.Or":  pure(func(x *Exec, st *State, a []Value) Value { return tv(Or(x.boolArgs(st, a[0])...)) }),
		"vspec/spec.And": pure(func(x *Exec, st *State, a []Value) Value { return tv(And(x.boolArgs(st, a[0])...)) }),
		"vspec/spec.Same": pure(func(x *Exec, st *State, a []Value) Value {
			n := types.NewPointer(x.w.pegNamed("Node"))
			return tv(Eq(st.toTerm(a[0], n), st.toTerm(a[1], n)))
		}),
		"strconv.Atoi": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			s := x.term(a[0])
			return orError(st, UF("atoi_ok", SBool, s), tv(UF("atoi", SInt, s)))
		},
		"strconv.ParseInt": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			s, base, bits := x.term(a[0]), st.norm(x.term(a[1])), st.norm(x.term(a[2]))
			if base == Int(10) && (bits == Int(0) || bits == Int(64)) { // what Atoi does
				return orError(st, UF("atoi_ok", SBool, s), tv(UF("atoi", SInt, s)))
			}
			return orError(st, UF("parseint_ok", SBool, s, base, bits), tv(UF("parseint", SInt, s, base, bits)))
		},
		"strconv.ParseBool": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			s := x.term(a[0])
			return orError(st, UF("parsebool_ok", SBool, s), tv(UF("parsebool", SBool, s)))
		},
		"miniquery.NormalizeOperation": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			s := x.term(a[0])
			if s.Op == "uf" && s.Name == "text" {
				return one(st, tv(x.w.specTerms(x.w.spec("OpAt"), s.Args...)[0]))
			}
			return one(st, tv(x.w.specTerms(x.w.spec("Norm"), s)[0]))
		},
		"fmt.Errorf": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, OpaqueIface{"error"})
		},
		"errors.New": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
			return one(st, OpaqueIface{"error"})
		},
	}
}

// orError: v, nil if ok, v, error otherwise.
func orError(st *State, ok *Term, v Value) []Outcome {
	bad := st.clone()
	var out []Outcome
	if st.assume(ok) {
		out = append(out, Outcome{st, []Value{v, IfaceVal{}}})
	}
	if bad.assume(Not(ok)) {
		out = append(out, Outcome{bad, []Value{v, OpaqueIface{"error"}}})
	}
	return out
}
