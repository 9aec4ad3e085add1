package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modPath = "github.com/wenerme/go-miniquery/"

// unsupported is raised for code outside of the verifier's reach.
type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// record describes a datatype with one proper constructor.
type record struct {
	sort   Sort
	cons   string
	nilC   string // constructor of the nil pointer, if any
	typ    *types.Named
	fields []recField
}

type recField struct {
	name string
	sort Sort
	typ  types.Type
}

var (
	records   = map[string]*record{} // by named type
	recOrder  []*record
	sortOfRec = map[Sort]*record{}
	// interface sorts: constructors by dynamic type
	ifaceCons = map[string]*record{} // by *T string
)

func typeName(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	return strings.ReplaceAll(s, modPath, "")
}

func isNodePtr(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && typeName(p.Elem()) == "miniquery.Node"
}

// sortOf maps a Go type to a sort, "" if it has none.
func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if typeName(u.Elem()) == "miniquery.Node" {
			return SNode
		}
		if depStruct(u.Elem()) {
			return "Ptr"
		}
		return ""
	case *types.Named:
		if r, ok := records[typeName(u)]; ok {
			return r.sort
		}
		switch typeName(u) {
		case "entgo.io/ent/entql.Expr", "entgo.io/ent/entql.P":
			return "Expr"
		}
		return sortOf(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SF64
		}
		return ""
	case *types.Slice:
		if e := sortOf(u.Elem()); e != "" {
			return seqOf(e)
		}
		return ""
	case *types.Interface:
		if u.NumMethods() == 0 {
			return SAny
		}
	}
	return ""
}

// depStruct: a structure of a dependency, of which only the address is known.
func depStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && (strings.HasPrefix(typeName(t), "gorm.io/") || graphStructs[strings.TrimPrefix(typeName(t), "entgo.io/ent/dialect/sql/sqlgraph.")])
}

// graphStructs are the structures of the graph of ent, which are only read.
var graphStructs = map[string]bool{"Node": true, "NodeSpec": true, "EdgeSpec": true, "FieldSpec": true, "Schema": true}

func registerRecord(n *types.Named, sort Sort, nilC string) {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		unsup("%v is not a struct", n)
	}
	r := &record{sort: sort, cons: "mk_" + string(sort), nilC: nilC, typ: n}
	records[typeName(n)] = r
	recOrder = append(recOrder, r)
	sortOfRec[sort] = r
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s := sortOf(f.Type())
		if s == "" {
			delete(records, typeName(n))
			unsup("field %s of %s has no sort", f.Name(), typeName(n))
		}
		r.fields = append(r.fields, recField{string(sort) + "_" + f.Name(), s, f.Type()})
	}
}

func (r *record) sel(i int, t *Term) *Term {
	return Sel(r.cons, r.fields[i].name, i, r.fields[i].sort, t)
}

func (r *record) isNil(t *Term) *Term {
	if r.nilC == "" {
		return False
	}
	return Eq(t, Cons(r.nilC, r.sort))
}

func nullaryCons(name string, sort Sort) *Term {
	switch name {
	case "nil_Node", "any_nil", "e_nil":
		return Cons(name, sort)
	}
	return nil
}

func nilNode() *Term { return Cons("nil_Node", SNode) }

// exprCons are the dynamic types of the interface entql.Expr.
var exprCons = []struct {
	typ    string
	cons   string
	fields []recField
	isP    bool
}{
	{"*entgo.io/ent/entql.UnaryExpr", "e_Unary", []recField{{"e_Unary_Op", SInt, nil}, {"e_Unary_X", "Expr", nil}}, true},
	{"*entgo.io/ent/entql.BinaryExpr", "e_Binary", []recField{{"e_Binary_Op", SInt, nil}, {"e_Binary_X", "Expr", nil}, {"e_Binary_Y", "Expr", nil}}, true},
	{"*entgo.io/ent/entql.NaryExpr", "e_Nary", []recField{{"e_Nary_Op", SInt, nil}, {"e_Nary_Xs", "(Seq Expr)", nil}}, true},
	{"*entgo.io/ent/entql.CallExpr", "e_Call", []recField{{"e_Call_Func", SStr, nil}, {"e_Call_Args", "(Seq Expr)", nil}}, true},
	{"*entgo.io/ent/entql.Field", "e_Field", []recField{{"e_Field_Name", SStr, nil}}, false},
	{"*entgo.io/ent/entql.Edge", "e_Edge", []recField{{"e_Edge_Name", SStr, nil}}, false},
	{"*entgo.io/ent/entql.Value", "e_Value", []recField{{"e_Value_V", SAny, nil}}, false},
}

// zero is the zero value of a type.
func zero(t types.Type) Value {
	switch typeName(t) {
	case "strings.Builder":
		return BuilderVal{Str("")}
	}
	if isNodePtr(t) {
		return tv(nilNode())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tv(False)
		case u.Info()&types.IsInteger != 0:
			return tv(Int(0))
		case u.Info()&types.IsString != 0:
			return tv(Str(""))
		case u.Info()&types.IsFloat != 0:
			return tv(UF("f64_0", SF64))
		case u.Kind() == types.UnsafePointer:
			return OpaqueVal{"unsafe"}
		}
	case *types.Struct:
		v := StructVal{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.Fields = append(v.Fields, zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		s := SeqVal{Elem: u.Elem()}
		if u.Len() > 4096 {
			unsup("array of %d elements", u.Len())
		}
		for i := int64(0); i < u.Len(); i++ {
			s.Segs = append(s.Segs, seg{Item: zero(u.Elem())})
		}
		return s
	case *types.Slice:
		return SliceVal{Elem: u.Elem(), Off: Int(0), Len: Int(0)}
	case *types.Signature:
		return FuncVal{}
	case *types.Interface:
		return IfaceVal{}
	case *types.Pointer:
		return OpaquePtr{UF("nilptr", "Ptr")}
	case *types.Map:
		return MapVal{}
	}
	unsup("zero value of %v", t)
	return nil
}

func isNilSlice(s SliceVal) bool { return s.Obj == 0 && s.T == nil }

// seqLen is the length of contents.
func (s SeqVal) len() *Term {
	n := Int(0)
	for _, g := range s.Segs {
		if g.Item != nil {
			n = Add(n, Int(1))
		} else {
			n = Add(n, SeqLen(g.Block))
		}
	}
	return n
}

// cut returns the segments [lo,hi), if they can be determined.
func (s SeqVal) cut(st *State, lo, hi *Term) ([]seg, bool) {
	off := Int(0)
	start, end := -1, -1
	same := func(a, b *Term) bool { return a == b || st != nil && st.simp(Eq(a, b)) == True }
	if same(lo, off) {
		start = 0
	}
	if same(hi, off) {
		end = 0
	}
	for i, g := range s.Segs {
		if g.Item != nil {
			off = Add(off, Int(1))
		} else {
			off = Add(off, SeqLen(g.Block))
		}
		if start < 0 && same(off, lo) {
			start = i + 1
		}
		if same(off, hi) {
			end = i + 1
		}
	}
	if start < 0 || end < start {
		return nil, false
	}
	return s.Segs[start:end], true
}

// segs returns the contents of a slice.
func (st *State) segs(v SliceVal) ([]seg, bool) {
	if v.Obj == 0 {
		if v.T == nil {
			return nil, true
		}
		var out []seg
		for _, p := range seqParts(v.T) {
			if p.Op == "seq.unit" {
				out = append(out, seg{Item: fromTerm(p.Args[0], v.Elem)})
			} else {
				out = append(out, seg{Block: p})
			}
		}
		return out, true
	}
	c := st.heap[v.Obj].Val.(SeqVal)
	return c.cut(st, v.Off, Add(v.Off, v.Len))
}

func (st *State) segsTerm(segs []seg, elem types.Type) *Term {
	es := sortOf(elem)
	if es == "" {
		unsup("slice of %v has no sort", elem)
	}
	var parts []*Term
	for _, g := range segs {
		if g.Item != nil {
			parts = append(parts, SeqUnit(st.toTerm(g.Item, elem)))
		} else {
			parts = append(parts, g.Block)
		}
	}
	return SeqCat(seqOf(es), parts...)
}

// fromTerm turns a term into a value of a Go type.
func fromTerm(t *Term, typ types.Type) Value {
	if s, ok := typ.Underlying().(*types.Slice); ok {
		return SliceVal{T: t, Off: Int(0), Len: SeqLen(t), Elem: s.Elem()}
	}
	if t.Sort == "Ptr" {
		return OpaquePtr{t}
	}
	return TermVal{t}
}

var converting = map[int]bool{}

// toTerm turns a value of a Go type into a term.
func (st *State) toTerm(v Value, typ types.Type) *Term {
	switch v := v.(type) {
	case TermVal:
		return v.T
	case SliceVal:
		if v.Obj == 0 && v.T != nil {
			return v.T
		}
		segs, ok := st.segs(v)
		if !ok {
			// the window is not at segment boundaries: a term can still express it
			c := st.heap[v.Obj].Val.(SeqVal)
			return SeqSub(st.segsTerm(c.Segs, v.Elem), v.Off, Add(v.Off, v.Len))
		}
		return st.segsTerm(segs, v.Elem)
	case OpaquePtr:
		if sortOf(typ) == "Ptr" {
			return v.T
		}
	case PtrVal:
		o := st.heap[v.Obj]
		if len(v.Path) == 0 && typeName(o.Typ) == "miniquery.Node" {
			if converting[v.Obj] {
				unsup("cyclic node")
			}
			converting[v.Obj] = true
			defer delete(converting, v.Obj)
			return st.toTerm(o.Val, o.Typ)
		}
	case StructVal:
		if r, ok := records[typeName(v.Typ)]; ok {
			var as []*Term
			for i, f := range v.Fields {
				as = append(as, st.toTerm(f, r.fields[i].typ))
			}
			return Cons(r.cons, r.sort, as...)
		}
	case IfaceVal:
		switch sortOf(typ) {
		case SAny:
			return st.anyTerm(v)
		case "Expr":
			return st.exprTerm(v)
		}
	}
	unsup("no term for %T (%v)", v, typ)
	return nil
}

func (st *State) anyTerm(v IfaceVal) *Term {
	if v.Typ == nil {
		return Cons("any_nil", SAny)
	}
	if s, ok := v.Typ.Underlying().(*types.Slice); ok && sortOf(s.Elem()) == SAny {
		return Cons("any_slice", SAny, st.toTerm(v.V, v.Typ))
	}
	if isNodePtr(v.Typ) {
		return Cons("any_node", SAny, st.toTerm(v.V, v.Typ))
	}
	if b, ok := types.Unalias(v.Typ).(*types.Basic); ok {
		switch b.Kind() {
		case types.Int:
			return Cons("any_int", SAny, st.toTerm(v.V, v.Typ))
		case types.String:
			return Cons("any_str", SAny, st.toTerm(v.V, v.Typ))
		case types.Bool:
			return Cons("any_bool", SAny, st.toTerm(v.V, v.Typ))
		case types.Float64:
			return Cons("any_f64", SAny, st.toTerm(v.V, v.Typ))
		}
	}
	// a struct with one interface field: a wrapped value
	if s, ok := v.V.(StructVal); ok && len(s.Fields) == 1 {
		if u := v.Typ.Underlying().(*types.Struct); sortOf(u.Field(0).Type()) == SAny {
			return Cons("any_wrap", SAny, Str("bound"), st.toTerm(s.Fields[0], u.Field(0).Type()))
		}
	}
	unsup("no term for interface holding %v", v.Typ)
	return nil
}

func (st *State) exprTerm(v IfaceVal) *Term {
	if v.Typ == nil {
		return Cons("e_nil", "Expr")
	}
	for _, c := range exprCons {
		if typeName(v.Typ) != c.typ {
			continue
		}
		if t, ok := v.V.(TermVal); ok { // already an expression term
			return t.T
		}
		p, ok := v.V.(PtrVal)
		if !ok || len(p.Path) != 0 {
			unsup("expression %v is %T", v.Typ, v.V)
		}
		o := st.heap[p.Obj].Val.(StructVal)
		u := o.Typ.Underlying().(*types.Struct)
		var as []*Term
		for i := range o.Fields {
			as = append(as, st.toTerm(o.Fields[i], u.Field(i).Type()))
		}
		return Cons(c.cons, "Expr", as...)
	}
	unsup("no term for expression %v", v.Typ)
	return nil
}

// anySel returns the payload of an Any term.
var anyPayload = map[string]recField{
	"any_int":   {"any_int_v", SInt, nil},
	"any_str":   {"any_str_v", SStr, nil},
	"any_bool":  {"any_bool_v", SBool, nil},
	"any_f64":   {"any_f64_v", SF64, nil},
	"any_slice": {"any_slice_v", "(Seq Any)", nil},
	"any_node":  {"any_node_v", SNode, nil},
}

// datatypeDecl is the SMT-LIB declaration of every datatype.
func datatypeDecl() string {
	var names, bodies []string
	for _, r := range recOrder {
		names = append(names, fmt.Sprintf("(%s 0)", r.sort))
		b := "("
		if r.nilC != "" {
			b += "(" + r.nilC + ") "
		}
		b += "(" + r.cons
		for _, f := range r.fields {
			b += fmt.Sprintf(" (%s %s)", f.name, f.sort)
		}
		b += "))"
		bodies = append(bodies, b)
	}
	names = append(names, "(Any 0)", "(Expr 0)")
	bodies = append(bodies, "((any_nil) (any_int (any_int_v Int)) (any_str (any_str_v String)) (any_bool (any_bool_v Bool)) (any_f64 (any_f64_v F64)) (any_slice (any_slice_v (Seq Any))) (any_node (any_node_v Node)) (any_wrap (any_wrap_t String) (any_wrap_v Any)))")
	b := "((e_nil)"
	for _, c := range exprCons {
		b += " (" + c.cons
		for _, f := range c.fields {
			b += fmt.Sprintf(" (%s %s)", f.name, f.sort)
		}
		b += ")"
	}
	bodies = append(bodies, b+")")
	return "(declare-sort F64 0)\n(declare-sort Ptr 0)\n(declare-sort DB 0)\n(declare-datatypes (" + strings.Join(names, " ") + ") (" + strings.Join(bodies, "\n  ") + "))\n"
}
