package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{ key(k *keyer) string }

type (
	// TermVal is a value that is represented by a term alone.
	TermVal struct{ T *Term }
	// PtrVal points into a heap object.
	PtrVal struct {
		Obj  int
		Path []step
	}
	// TermPtr points to a field of an immutable record that is a term (a node
	// of the syntax tree that the code under check did not create).
	TermPtr struct {
		T *Term
		F int // field, -1 for the record itself
	}
	// OpaquePtr is a pointer of which only the identity and nilness is known.
	OpaquePtr struct{ T *Term }
	// StructVal is a struct value.
	StructVal struct {
		Typ    types.Type
		Fields []Value
	}
	// SeqVal is the contents of an array or of the array behind a slice.
	SeqVal struct {
		Elem types.Type
		Segs []seg
	}
	// SliceVal is a slice: a window of a heap object, or an immutable term (Obj 0).
	SliceVal struct {
		Obj      int
		Off, Len *Term
		T        *Term
		Elem     types.Type
	}
	// FuncVal is a function value; Fn nil is the nil func.
	FuncVal struct {
		Fn   *ssa.Function
		Bind []Value
	}
	// OpaqueFunc is a function value given by the environment.
	OpaqueFunc struct{ T *Term }
	// IfaceVal is an interface value with a known dynamic type; Typ nil is the nil interface.
	IfaceVal struct {
		Typ types.Type
		V   Value
	}
	// OpaqueIface is a non-nil interface value of unknown type, e.g. an error.
	OpaqueIface struct{ Name string }
	// MaybeErr is an interface value of which only T is known, that it is not nil.
	MaybeErr struct{ T *Term }
	// TupleVal holds multiple results.
	TupleVal struct{ Vs []Value }
	// MapVal is a reference to a map object.
	MapVal struct{ Obj int }
	// BuilderVal is the contents of a strings.Builder.
	BuilderVal struct{ Text *Term }
	// OpaqueVal is a value of no interest; it cannot be inspected.
	OpaqueVal struct{ Name string }
)

type step struct {
	Field int
	Idx   *Term // nil for a field
}

type seg struct {
	Item  Value // nil for a block
	Block *Term
}

type keyer struct {
	st   *State
	mark int
	ren  map[int]int
	todo []int
}

func (k *keyer) obj(id int) string {
	if id < k.mark {
		return fmt.Sprintf("o%d", id)
	}
	n, ok := k.ren[id]
	if !ok {
		n = len(k.ren)
		k.ren[id] = n
		k.todo = append(k.todo, id)
	}
	return fmt.Sprintf("n%d", n)
}

func keys(k *keyer, vs []Value) string {
	var b strings.Builder
	for _, v := range vs {
		if v == nil {
			b.WriteString("_,")
			continue
		}
		b.WriteString(v.key(k))
		b.WriteByte(',')
	}
	return b.String()
}

func tkey(t *Term) string {
	if t == nil {
		return "-"
	}
	return fmt.Sprintf("t%d", t.ID)
}

func (v TermVal) key(k *keyer) string   { return tkey(v.T) }
func (v OpaquePtr) key(k *keyer) string { return "op" + tkey(v.T) }
func (v PtrVal) key(k *keyer) string {
	s := "p" + k.obj(v.Obj)
	for _, p := range v.Path {
		if p.Idx != nil {
			s += "[" + tkey(p.Idx) + "]"
		} else {
			s += fmt.Sprintf(".%d", p.Field)
		}
	}
	return s
}
func (v TermPtr) key(k *keyer) string   { return fmt.Sprintf("tp%d.%d", v.T.ID, v.F) }
func (v StructVal) key(k *keyer) string { return "{" + keys(k, v.Fields) + "}" }
func (v SeqVal) key(k *keyer) string {
	var b strings.Builder
	b.WriteByte('[')
	for _, s := range v.Segs {
		if s.Item != nil {
			b.WriteString(s.Item.key(k))
		} else {
			b.WriteString("*" + tkey(s.Block))
		}
		b.WriteByte(';')
	}
	b.WriteByte(']')
	return b.String()
}
func (v SliceVal) key(k *keyer) string {
	if v.Obj == 0 {
		return "st" + tkey(v.T)
	}
	return "s" + k.obj(v.Obj) + tkey(v.Off) + tkey(v.Len)
}
func (v FuncVal) key(k *keyer) string {
	if v.Fn == nil {
		return "f0"
	}
	return "f" + v.Fn.String() + "(" + keys(k, v.Bind) + ")"
}
func (v OpaqueFunc) key(k *keyer) string { return "of" + tkey(v.T) }
func (v IfaceVal) key(k *keyer) string {
	if v.Typ == nil {
		return "nil"
	}
	return "i" + v.Typ.String() + ":" + v.V.key(k)
}
func (v OpaqueIface) key(k *keyer) string { return "oi" } // errors are not told apart
func (v MaybeErr) key(k *keyer) string    { return "me" + tkey(v.T) }
func (v TupleVal) key(k *keyer) string    { return "(" + keys(k, v.Vs) + ")" }
func (v MapVal) key(k *keyer) string      { return "m" + k.obj(v.Obj) }
func (v BuilderVal) key(k *keyer) string  { return "b" + tkey(v.Text) }
func (v OpaqueVal) key(k *keyer) string   { return "ov" + v.Name }

func tv(t *Term) Value { return TermVal{t} }

// Obj is a heap object.
type Obj struct {
	Typ types.Type
	Val Value
}

// State is the state of one path.
type State struct {
	heap  map[int]*Obj
	pc    []*Term
	known map[int]bool  // atoms decided by pc
	eqc   map[int]*Term // terms equal to a constant
	steps []pentry      // parser ghost
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, known: map[int]bool{}, eqc: map[int]*Term{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{heap: cp(s.heap), pc: s.pc[:len(s.pc):len(s.pc)], known: cp(s.known), eqc: cp(s.eqc), steps: s.steps[:len(s.steps):len(s.steps)]}
}

// assume adds a fact to the path condition; false if it contradicts what is known.
func (s *State) assume(t *Term) bool {
	t = s.simp(t)
	if t == True {
		return true
	}
	if t == False {
		return false
	}
	for _, c := range conj(t) {
		s.pc = append(s.pc, c)
		s.learn(c)
	}
	return true
}

func (s *State) learn(c *Term) {
	s.known[c.ID] = true
	s.known[Not(c).ID] = false
	if c.Op == "=" && c.Args[1].isConst() {
		s.eqc[c.Args[0].ID] = c.Args[1]
	}
	if c.Op == "is" {
		// a nullary constructor determines the value
		if t := nullaryCons(c.Name, c.Args[0].Sort); t != nil {
			s.eqc[c.Args[0].ID] = t
		}
	}
}

// simp decides a boolean term as far as the path condition does syntactically.
func (s *State) simp(t *Term) *Term {
	if b, ok := s.known[t.ID]; ok {
		return Bool(b)
	}
	switch t.Op {
	case "not":
		return Not(s.simp(t.Args[0]))
	case "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, s.simp(a))
		}
		return And(as...)
	case "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, s.simp(a))
		}
		return Or(as...)
	case "ite":
		c := s.simp(t.Args[0])
		if c == True {
			return s.simp(t.Args[1])
		}
		if c == False {
			return s.simp(t.Args[2])
		}
	case "=":
		a, b := s.norm(t.Args[0]), s.norm(t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			return s.simp(Eq(a, b))
		}
	case "<=":
		a := s.norm(t.Args[0])
		if a != t.Args[0] {
			return s.simp(le0(linOf(a)))
		}
	case "is":
		a := s.norm(t.Args[0])
		if a != t.Args[0] {
			return Is(t.Name, a)
		}
	}
	return t
}

// norm replaces terms that the path condition makes equal to a constant.
func (s *State) norm(t *Term) *Term {
	if c, ok := s.eqc[t.ID]; ok {
		return c
	}
	switch t.Op {
	case "ite":
		c := s.simp(t.Args[0])
		if c == True {
			return s.norm(t.Args[1])
		}
		if c == False {
			return s.norm(t.Args[2])
		}
	case "+", "*":
		l := linOf(t)
		r := linConst(l.c)
		for _, k := range l.keys() {
			r = linAdd(r, linScale(linOf(s.norm(allTerm[k])), l.m[k]))
		}
		return linTerm(r)
	}
	return t
}

var objN = 0

func (s *State) alloc(typ types.Type, v Value) int {
	objN++
	s.heap[objN] = &Obj{typ, v}
	return objN
}
