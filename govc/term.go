package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort, written as in SMT-LIB.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "String"
	SNode Sort = "Node"
	SAny  Sort = "Any"
	SF64  Sort = "F64"
)

func seqOf(s Sort) Sort    { return Sort("(Seq " + string(s) + ")") }
func (s Sort) isSeq() bool { return strings.HasPrefix(string(s), "(Seq ") }
func (s Sort) elem() Sort {
	return Sort(strings.TrimSuffix(strings.TrimPrefix(string(s), "(Seq "), ")"))
}

// Term is a hash-consed first order term. Two structurally equal terms are the
// same pointer.
type Term struct {
	ID   int
	Op   string // int str true false var uf not and or = <= + * ite str.++ seq.++ seq.unit seq.empty seq.len seq.nth cons sel is ...
	Name string // var, uf, cons and sel name, str contents
	I    int64  // int value, coefficient of *
	Args []*Term
	Sort Sort
}

var (
	terms   = map[string]*Term{}
	allTerm []*Term
)

func mk(op, name string, i int64, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(name)
	b.WriteByte(0)
	b.WriteString(strconv.FormatInt(i, 10))
	b.WriteByte(0)
	b.WriteString(string(sort))
	for _, a := range args {
		b.WriteByte(1)
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := terms[k]; ok {
		return t
	}
	t := &Term{ID: len(allTerm), Op: op, Name: name, I: i, Args: args, Sort: sort}
	terms[k] = t
	allTerm = append(allTerm, t)
	return t
}

var (
	True  = mk("true", "", 0, SBool)
	False = mk("false", "", 0, SBool)
)

func Int(i int64) *Term                { return mk("int", "", i, SInt) }
func Str(s string) *Term               { return mk("str", s, 0, SStr) }
func Var(name string, sort Sort) *Term { return mk("var", name, 0, sort) }
func UF(name string, sort Sort, args ...*Term) *Term {
	return mk("uf", name, 0, sort, args...)
}
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshN = map[string]int{}

func Fresh(name string, sort Sort) *Term {
	freshN[name]++
	return Var(fmt.Sprintf("%s!%d", name, freshN[name]), sort)
}

func (t *Term) isConst() bool {
	switch t.Op {
	case "int", "str", "true", "false":
		return true
	case "cons":
		for _, a := range t.Args {
			if !a.isConst() {
				return false
			}
		}
		return true
	case "seq.empty":
		return true
	}
	return false
}

// ---- booleans

func Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return t.Args[0]
	case "<=":
		// not (0 <= d)  is  0 <= -d-1
		return le0(linAdd(linScale(linOf(t.Args[0]), -1), linConst(-1)))
	}
	return mk("not", "", 0, SBool, t)
}

func nary(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return mk(op, "", 0, SBool, out...)
}

func And(ts ...*Term) *Term { return nary("and", True, False, ts) }

func Or(ts ...*Term) *Term {
	t := nary("or", False, True, ts)
	if t.Op != "or" {
		return t
	}
	// factor conjunctions: (A and x) or (A and not x)
	if len(t.Args) == 2 {
		a, b := conj(t.Args[0]), conj(t.Args[1])
		inB := map[int]bool{}
		for _, x := range b {
			inB[x.ID] = true
		}
		var common, ra, rb []*Term
		inC := map[int]bool{}
		for _, x := range a {
			if inB[x.ID] {
				common = append(common, x)
				inC[x.ID] = true
			} else {
				ra = append(ra, x)
			}
		}
		for _, x := range b {
			if !inC[x.ID] {
				rb = append(rb, x)
			}
		}
		if len(common) > 0 {
			return And(append(common, Or(And(ra...), And(rb...)))...)
		}
		// x or (not x and r)  is  x or r
		for i := 0; i < 2; i++ {
			one, many := t.Args[i], conj(t.Args[1-i])
			var rest []*Term
			hit := false
			for _, m := range many {
				if m == Not(one) {
					hit = true
				} else {
					rest = append(rest, m)
				}
			}
			if hit {
				return Or(one, And(rest...))
			}
		}
	}
	return t
}

func conj(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", "", 0, a.Sort, c, a, b)
}

// ---- integers in linear normal form

type lin struct {
	m map[int]int64
	c int64
}

func linConst(c int64) lin { return lin{c: c} }

func linOf(t *Term) lin {
	switch t.Op {
	case "int":
		return lin{c: t.I}
	case "+":
		r := lin{m: map[int]int64{}, c: t.I}
		for _, a := range t.Args {
			if a.Op == "*" {
				r.m[a.Args[0].ID] += a.I
			} else {
				r.m[a.ID]++
			}
		}
		return r
	case "*":
		return lin{m: map[int]int64{t.Args[0].ID: t.I}}
	}
	return lin{m: map[int]int64{t.ID: 1}}
}

func linAdd(a, b lin) lin {
	r := lin{m: map[int]int64{}, c: a.c + b.c}
	for k, v := range a.m {
		r.m[k] += v
	}
	for k, v := range b.m {
		r.m[k] += v
	}
	for k, v := range r.m {
		if v == 0 {
			delete(r.m, k)
		}
	}
	return r
}

func linScale(a lin, k int64) lin {
	r := lin{m: map[int]int64{}, c: a.c * k}
	if k == 0 {
		return r
	}
	for x, v := range a.m {
		r.m[x] = v * k
	}
	return r
}

func (l lin) keys() []int {
	var ks []int
	for k, v := range l.m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	return ks
}

func linTerm(l lin) *Term {
	ks := l.keys()
	if len(ks) == 0 {
		return Int(l.c)
	}
	var args []*Term
	for _, k := range ks {
		if l.m[k] == 1 {
			args = append(args, allTerm[k])
		} else {
			args = append(args, mk("*", "", l.m[k], SInt, allTerm[k]))
		}
	}
	if len(args) == 1 && l.c == 0 {
		return args[0]
	}
	return mk("+", "", l.c, SInt, args...)
}

func Add(a, b *Term) *Term { return linTerm(linAdd(linOf(a), linOf(b))) }
func Sub(a, b *Term) *Term { return linTerm(linAdd(linOf(a), linScale(linOf(b), -1))) }
func Mul(a, b *Term) *Term {
	if a.Op == "int" {
		return linTerm(linScale(linOf(b), a.I))
	}
	if b.Op == "int" {
		return linTerm(linScale(linOf(a), b.I))
	}
	return UF("mul", SInt, a, b)
}

func le0(d lin) *Term {
	ks := d.keys()
	if len(ks) == 0 {
		return Bool(0 <= d.c)
	}
	// seq.len(x) + c >= 0 with c >= 0
	if d.c >= 0 {
		pos := true
		for _, k := range ks {
			op := allTerm[k].Op
			if !(op == "seq.len" || op == "str.len") || d.m[k] < 0 {
				pos = false
			}
		}
		if pos {
			return True
		}
	}
	t := linTerm(d)
	if t.Op == "ite" && t.Args[1].Op == "int" && t.Args[2].Op == "int" {
		return Ite(t.Args[0], Bool(t.Args[1].I >= 0), Bool(t.Args[2].I >= 0))
	}
	return mk("<=", "", 0, SBool, t) // 0 <= t
}

func Le(a, b *Term) *Term { return le0(linAdd(linOf(b), linScale(linOf(a), -1))) }
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- equality

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sorts %s and %s: %v = %v", a.Sort, b.Sort, a, b))
	}
	switch a.Sort {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case SInt:
		d := linAdd(linOf(a), linScale(linOf(b), -1))
		ks := d.keys()
		if len(ks) == 0 {
			return Bool(d.c == 0)
		}
		if d.m[ks[0]] < 0 {
			d = linScale(d, -1)
		}
		c := -d.c
		d.c = 0
		l := linTerm(d)
		if l.Op == "ite" {
			return eqIte(l, Int(c))
		}
		if (l.Op == "seq.len" || l.Op == "str.len") && c <= 0 {
			if c < 0 {
				return False
			}
			return Not(Le(Int(1), l))
		}
		if l.Op == "uf" && l.Name == "at" && c == 1114112 {
			i := l.Args[1]
			return Or(Lt(i, Int(0)), Le(SeqLen(l.Args[0]), i))
		}
		return mk("=", "", 0, SBool, l, Int(c))
	case SStr:
		if a.Op == "str" && b.Op == "str" {
			return False
		}
		x, y := catParts(a), catParts(b)
		if len(x) > 1 || len(y) > 1 {
			x, y, ok := stripStr(x, y)
			if !ok {
				return False
			}
			na, nb := Concat(x...), Concat(y...)
			if na != a || nb != b {
				return Eq(na, nb)
			}
		}
	default:
		if a.Op == "cons" && b.Op == "cons" {
			if a.Name != b.Name {
				return False
			}
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
		if a.Sort.isSeq() {
			x, y := seqParts(a), seqParts(b)
			for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
				x, y = x[1:], y[1:]
			}
			for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
				x, y = x[:len(x)-1], y[:len(y)-1]
			}
			var cs []*Term
			for len(x) > 0 && len(y) > 0 && x[0].Op == "seq.unit" && y[0].Op == "seq.unit" {
				cs = append(cs, Eq(x[0].Args[0], y[0].Args[0]))
				x, y = x[1:], y[1:]
			}
			for len(x) > 0 && len(y) > 0 && x[len(x)-1].Op == "seq.unit" && y[len(y)-1].Op == "seq.unit" {
				cs = append(cs, Eq(x[len(x)-1].Args[0], y[len(y)-1].Args[0]))
				x, y = x[:len(x)-1], y[:len(y)-1]
			}
			na, nb := SeqCat(a.Sort, x...), SeqCat(a.Sort, y...)
			if len(cs) > 0 {
				return And(append(cs, Eq(na, nb))...)
			}
			if na != a || nb != b {
				return Eq(na, nb)
			}
			if (len(x) == 0 && hasUnit(y)) || (len(y) == 0 && hasUnit(x)) {
				return False
			}
		}
	}
	if a.Op == "ite" && b.isConst() {
		return eqIte(a, b)
	}
	if b.Op == "ite" && a.isConst() {
		return eqIte(b, a)
	}
	if a.isConst() || (!b.isConst() && a.ID > b.ID) {
		a, b = b, a
	}
	return mk("=", "", 0, SBool, a, b)
}

func hasUnit(ts []*Term) bool {
	for _, t := range ts {
		if t.Op == "seq.unit" {
			return true
		}
	}
	return false
}

func eqIte(t, c *Term) *Term {
	x, y := Eq(t.Args[1], c), Eq(t.Args[2], c)
	return Ite(t.Args[0], x, y)
}

// ---- strings

func catParts(t *Term) []*Term {
	if t.Op == "str.++" {
		return t.Args
	}
	if t.Op == "str" && t.Name == "" {
		return nil
	}
	return []*Term{t}
}

func Concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range catParts(t) {
			if p.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = Str(out[len(out)-1].Name + p.Name)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk("str.++", "", 0, SStr, out...)
}

func stripStr(x, y []*Term) ([]*Term, []*Term, bool) {
	x, y = append([]*Term{}, x...), append([]*Term{}, y...)
	for len(x) > 0 && len(y) > 0 {
		if x[0] == y[0] {
			x, y = x[1:], y[1:]
			continue
		}
		if x[0].Op == "str" && y[0].Op == "str" {
			a, b := x[0].Name, y[0].Name
			n := 0
			for n < len(a) && n < len(b) && a[n] == b[n] {
				n++
			}
			if n == 0 || (n < len(a) && n < len(b)) {
				return nil, nil, false
			}
			x[0], y[0] = Str(a[n:]), Str(b[n:])
			if a[n:] == "" {
				x = x[1:]
			}
			if b[n:] == "" {
				y = y[1:]
			}
			continue
		}
		break
	}
	for len(x) > 0 && len(y) > 0 {
		p, q := x[len(x)-1], y[len(y)-1]
		if p == q {
			x, y = x[:len(x)-1], y[:len(y)-1]
			continue
		}
		if p.Op == "str" && q.Op == "str" {
			a, b := p.Name, q.Name
			if strings.HasSuffix(a, b) {
				x[len(x)-1] = Str(strings.TrimSuffix(a, b))
				y = y[:len(y)-1]
				continue
			}
			if strings.HasSuffix(b, a) {
				y[len(y)-1] = Str(strings.TrimSuffix(b, a))
				x = x[:len(x)-1]
				continue
			}
			return nil, nil, false
		}
		break
	}
	return x, y, true
}

func StrLen(t *Term) *Term {
	if t.Op == "str" {
		return Int(int64(len(t.Name)))
	}
	if t.Op == "str.++" {
		r := Int(0)
		for _, a := range t.Args {
			r = Add(r, StrLen(a))
		}
		return r
	}
	return mk("str.len", "", 0, SInt, t)
}

// ---- sequences

func SeqEmpty(sort Sort) *Term { return mk("seq.empty", "", 0, sort) }
func SeqUnit(t *Term) *Term    { return mk("seq.unit", "", 0, seqOf(t.Sort), t) }

func seqParts(t *Term) []*Term {
	switch t.Op {
	case "seq.++":
		return t.Args
	case "seq.empty":
		return nil
	}
	return []*Term{t}
}

func SeqCat(sort Sort, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, seqParts(t)...)
	}
	switch len(out) {
	case 0:
		return SeqEmpty(sort)
	case 1:
		return out[0]
	}
	return mk("seq.++", "", 0, sort, out...)
}

func SeqLen(t *Term) *Term {
	switch t.Op {
	case "seq.empty":
		return Int(0)
	case "seq.unit":
		return Int(1)
	case "seq.++":
		r := Int(0)
		for _, a := range t.Args {
			r = Add(r, SeqLen(a))
		}
		return r
	}
	return mk("seq.len", "", 0, SInt, t)
}

func SeqNth(t, i *Term) *Term {
	if t.Op == "seq.unit" && i == Int(0) {
		return t.Args[0]
	}
	if t.Op == "seq.++" {
		off := Int(0)
		for _, a := range t.Args {
			d := Sub(i, off)
			if a.Op == "seq.unit" {
				if d == Int(0) {
					return a.Args[0]
				}
			} else if lenPos := Le(Int(0), d) == True && Lt(d, SeqLen(a)) == True; lenPos {
				return SeqNth(a, d)
			}
			off = Add(off, SeqLen(a))
		}
	}
	return mk("seq.nth", "", 0, t.Sort.elem(), t, i)
}

// SeqSub is the subsequence [lo,hi).
func SeqSub(t, lo, hi *Term) *Term {
	if lo == Int(0) && hi == SeqLen(t) {
		return t
	}
	if lo == hi {
		return SeqEmpty(t.Sort)
	}
	parts := seqParts(t)
	// cut at part boundaries
	off := Int(0)
	start, end := -1, -1
	if lo == Int(0) {
		start = 0
	}
	for i, p := range parts {
		off = Add(off, SeqLen(p))
		if off == lo {
			start = i + 1
		}
		if off == hi {
			end = i + 1
		}
	}
	if start >= 0 && end >= start {
		return SeqCat(t.Sort, parts[start:end]...)
	}
	return mk("seq.sub", "", 0, t.Sort, t, lo, hi)
}

// ---- datatypes

func Cons(name string, sort Sort, args ...*Term) *Term {
	return mk("cons", name, 0, sort, args...)
}

// Sel is the selector field of constructor cons, argument index i.
func Sel(cons, field string, i int, sort Sort, t *Term) *Term {
	if t.Op == "cons" && t.Name == cons {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Sel(cons, field, i, sort, t.Args[1]), Sel(cons, field, i, sort, t.Args[2]))
	}
	return mk("sel", field, int64(i), sort, t)
}

// Is tests the constructor.
func Is(cons string, t *Term) *Term {
	if t.Op == "cons" {
		return Bool(t.Name == cons)
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Is(cons, t.Args[1]), Is(cons, t.Args[2]))
	}
	return mk("is", cons, 0, SBool, t)
}

// ---- printing

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil)
	return b.String()
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	// Go strings are byte sequences: one SMT character per byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return strconv.FormatInt(i, 10)
}

func smtName(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!.$@", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func nthName(elem Sort) string {
	return "nth_" + strings.NewReplacer("(", "", ")", "", " ", "_").Replace(string(elem))
}

func (t *Term) write(b *strings.Builder, named map[int]string) {
	if named != nil {
		if n, ok := named[t.ID]; ok {
			b.WriteString(n)
			return
		}
	}
	app := func(op string, args ...*Term) {
		if len(args) == 0 {
			b.WriteString(op)
			return
		}
		b.WriteString("(" + op)
		for _, a := range args {
			b.WriteByte(' ')
			a.write(b, named)
		}
		b.WriteByte(')')
	}
	switch t.Op {
	case "int":
		b.WriteString(smtInt(t.I))
	case "str":
		b.WriteString(smtString(t.Name))
	case "true", "false":
		b.WriteString(t.Op)
	case "var":
		b.WriteString(smtName(t.Name))
	case "uf":
		app(smtName(t.Name), t.Args...)
	case "<=":
		b.WriteString("(<= 0 ")
		t.Args[0].write(b, named)
		b.WriteByte(')')
	case "+":
		b.WriteString("(+")
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.write(b, named)
		}
		b.WriteString(" " + smtInt(t.I) + ")")
	case "*":
		b.WriteString("(* " + smtInt(t.I) + " ")
		t.Args[0].write(b, named)
		b.WriteByte(')')
	case "seq.empty":
		b.WriteString("(as seq.empty " + string(t.Sort) + ")")
	case "seq.sub":
		b.WriteString("(seq.extract ")
		t.Args[0].write(b, named)
		b.WriteByte(' ')
		t.Args[1].write(b, named)
		b.WriteByte(' ')
		Sub(t.Args[2], t.Args[1]).write(b, named)
		b.WriteByte(')')
	case "seq.nth":
		// not the one of the solver: z3 is unsound on positions outside of a sequence
		app(nthName(t.Sort), t.Args...)
	case "cons":
		app(smtName(t.Name), t.Args...)
	case "sel":
		app(smtName(t.Name), t.Args...)
	case "is":
		app("(_ is "+smtName(t.Name)+")", t.Args...)
	default:
		app(t.Op, t.Args...)
	}
}
