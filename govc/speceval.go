package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type specDef struct {
	res []*Term
	err string
}

var (
	specMemo = map[string]*specDef{}
	specFns  = map[string]*ssa.Function{}
)

func specKey(fn *ssa.Function, args []*Term) string {
	var b strings.Builder
	b.WriteString(specName(fn))
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	return b.String()
}

// specBody evaluates the body of a specification function on terms.
func (w *World) specBody(fn *ssa.Function, args []*Term) []*Term {
	k := specKey(fn, args)
	if d, ok := specMemo[k]; ok {
		if d == nil {
			unsup("specification function %s is recursive but not opaque", fn.Name())
		}
		return d.res
	}
	specMemo[k] = nil
	x := &Exec{w: w, spec: true, unit: "spec." + fn.Name()}
	st := newState()
	var vs []Value
	for i, a := range args {
		vs = append(vs, fromTerm(a, fn.Params[i].Type()))
	}
	outs := x.call(st, fn, nil, vs)
	n := fn.Signature.Results().Len()
	d := &specDef{}
	var rows []row
	for _, o := range outs {
		var ts []*Term
		for i := 0; i < n; i++ {
			ts = append(ts, o.st.toTerm(o.res[i], fn.Signature.Results().At(i).Type()))
		}
		rows = append(rows, row{o.st.pc, ts})
	}
	if len(rows) == 0 {
		unsup("specification function %s has no outcome", fn.Name())
	}
	for i := 0; i < n; i++ {
		d.res = append(d.res, decision(rows, i))
	}
	specMemo[k] = d
	return d.res
}

type row struct {
	pc  []*Term
	res []*Term
}

// decision joins the outcomes of a case analysis into one term.
func decision(rows []row, i int) *Term {
	if len(rows) == 1 {
		return rows[0].res[i]
	}
	same := true
	for _, r := range rows {
		if r.res[i] != rows[0].res[i] {
			same = false
		}
	}
	if same {
		return rows[0].res[i]
	}
	// strip the common prefix
	n := 0
	for {
		ok := true
		for _, r := range rows {
			if len(r.pc) <= n || r.pc[n] != rows[0].pc[n] {
				ok = false
			}
		}
		if !ok {
			break
		}
		n++
	}
	if len(rows[0].pc) > n {
		c := rows[0].pc[n]
		nc := Not(c)
		var a, b []row
		ok := true
		for _, r := range rows {
			if len(r.pc) <= n {
				ok = false
				break
			}
			switch r.pc[n] {
			case c:
				a = append(a, row{r.pc[n+1:], r.res})
			case nc:
				b = append(b, row{r.pc[n+1:], r.res})
			default:
				ok = false
			}
		}
		if ok && len(b) > 0 {
			return Ite(c, decision(a, i), decision(b, i))
		}
	}
	last := rows[len(rows)-1].res[i]
	for j := len(rows) - 2; j >= 0; j-- {
		last = Ite(And(rows[j].pc[n:]...), rows[j].res[i], last)
	}
	return last
}

func specUF(fn *ssa.Function, i int, args []*Term) *Term {
	rt := fn.Signature.Results().At(i).Type()
	s := sortOf(rt)
	if s == "" {
		unsup("result of specification function %s has no sort", fn.Name())
	}
	name := "spec." + specName(fn)
	if fn.Signature.Results().Len() > 1 {
		name = fmt.Sprintf("%s#%d", name, i)
	}
	specFns[name] = fn
	return UF(name, s, args...)
}

// specTerms applies a specification function to terms.
func (w *World) specTerms(fn *ssa.Function, args ...*Term) []*Term {
	if !w.opaqueS[fn] {
		return w.specBody(fn, args)
	}
	if el := w.allOf[specName(fn)]; el != nil {
		// over a concatenation: every part
		var cs []*Term
		for _, p := range seqParts(args[0]) {
			switch {
			case p.Op == "seq.unit":
				cs = append(cs, w.specTerms(el, p.Args[0])[0])
			case p.Op == "ite":
				cs = append(cs, Ite(p.Args[0], w.specTerms(fn, p.Args[1])[0], w.specTerms(fn, p.Args[2])[0]))
			default:
				cs = append(cs, specUF(fn, 0, []*Term{p}))
			}
		}
		return []*Term{And(cs...)}
	}
	var out []*Term
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		out = append(out, specUF(fn, i, args))
	}
	return out
}

func (w *World) spec(name string) *ssa.Function {
	p := w.specPkg
	if pkg, n, ok := strings.Cut(name, "."); ok {
		p, name = w.pkgs["vspec/"+pkg], n
	}
	f := p.Func(name)
	if f == nil {
		fatal("no specification function %s", name)
	}
	return f
}

func (x *Exec) specApply(st *State, fn *ssa.Function, args []Value) []Value {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, st.norm(st.toTerm(a, fn.Params[i].Type())))
	}
	var out []Value
	for i, t := range x.w.specTerms(fn, ts...) {
		out = append(out, fromTerm(t, fn.Signature.Results().At(i).Type()))
	}
	return out
}

// induction restricts lemmas while one is being proved: they hold for smaller
// arguments only.
type induction struct {
	fn   *ssa.Function
	args []*Term
}

// smaller is the condition under which the lemmas of fn(args) may be used.
func (w *World) smaller(ind *induction, fn *ssa.Function, args []*Term) *Term {
	if ind == nil {
		return True
	}
	kind := func(f *ssa.Function) string {
		if len(f.Params) > 0 && typeName(f.Params[0].Type()) == "[]rune" {
			return "text"
		}
		return specName(f)
	}
	if kind(fn) != kind(ind.fn) {
		if w.rank[specName(fn)] < w.rank[specName(ind.fn)] {
			return True
		}
		return False
	}
	if kind(fn) == "text" {
		if args[0] != ind.args[0] {
			return False
		}
		c := Lt(ind.args[1], args[1])
		if w.rank[specName(fn)] < w.rank[specName(ind.fn)] {
			c = Le(ind.args[1], args[1])
		}
		return c
	}
	// a list and an index, or a part of a tree
	if len(args) >= 2 && args[1].Sort == SInt && args[0] == ind.args[0] {
		return Lt(ind.args[1], args[1])
	}
	if partOf(args[0], ind.args[0]) {
		return True
	}
	return False
}

// partOf: a is a proper part of the tree b.
func partOf(a, b *Term) bool {
	for a != b {
		if (a.Op != "sel" && a.Op != "seq.nth") || len(a.Args) == 0 {
			return false
		}
		a = a.Args[0]
		if a == b {
			return true
		}
	}
	return false
}

// narrow are the functions of a focus that a goal is about.
func (w *World) narrow(goal *Term, focus map[string]bool) map[string]bool {
	out := map[string]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if out[specName(fn)] {
			return
		}
		out[specName(fn)] = true
		for _, f := range w.specCalls(fn) {
			add(f)
		}
	}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if fn := specFns[t.Name]; t.Op == "uf" && fn != nil {
			add(fn)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(goal)
	for n := range out {
		if !focus[n] {
			delete(out, n)
		}
	}
	return out
}

const maxFacts = 12000

// guided: recursive functions are unfolded deeper only if the case is known.
const guided = -1

var isRecursive = map[*ssa.Function]bool{}

// recursive: the specification function calls itself.
func (w *World) recursive(fn *ssa.Function) bool {
	if r, ok := isRecursive[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		for _, c := range w.specCalls(f) {
			if c == fn {
				return true
			}
			if !seen[c] {
				seen[c] = true
				if reach(c) {
					return true
				}
			}
		}
		return false
	}
	isRecursive[fn] = reach(fn)
	return isRecursive[fn]
}

// specCalls are the specification functions that one calls.
func (w *World) specCalls(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && w.isSpec(f) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// expand adds definitions, lemmas and axioms for the applications that occur.
// The functions in focus are unfolded fRounds deep, all others aRounds deep.
func (w *World) expand(asserts []*Term, focus map[string]bool, fRounds, aRounds int, ind *induction) []*Term {
	out := append([]*Term{}, asserts...)
	unfolded := map[string]bool{}
	lemmaDone := map[string]bool{}
	seen := map[int]bool{}
	frontier := asserts
	var alls, idx []*Term // list predicates and indices
	instDone := map[[2]int]bool{}
	var preds, cased, spelled []*Term
	consts := map[int][]*Term{} // the constants that terms are compared with
	def := map[int]*Term{}
	moved := map[int]bool{}
	kn := newState() // definitions are simplified with what is known
	var learn func(t *Term)
	learn = func(t *Term) {
		if t == True || t == False {
			return
		}
		for _, c := range conj(t) {
			kn.learn(c)
		}
	}
	for _, t := range asserts {
		learn(t)
	}
	for round := 0; round < 5; round++ {
		var next []*Term
		var apps []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t.ID] {
				return
			}
			seen[t.ID] = true
			for _, a := range t.Args {
				walk(a)
			}
			switch t.Op {
			case "uf":
				apps = append(apps, t)
			case "seq.nth":
				idx = append(idx, t.Args[1])
				if m := w.element(t); m != nil {
					next = append(next, m)
				}
			case "=":
				for i, a := range t.Args {
					if b := t.Args[1-i]; b.Op == "str" {
						consts[a.ID] = append(consts[a.ID], b)
						spelled = append(spelled, spells(t, a, b, false)...)
					}
				}
			}
		}
		for _, t := range frontier {
			walk(t)
		}
		add := func(t *Term) {
			if t != True && len(out) < maxFacts { // fewer facts are sound
				out = append(out, t)
				next = append(next, t)
			}
		}
		for _, t := range spelled {
			add(t)
		}
		spelled = nil
		for _, t := range apps {
			if len(out) >= maxFacts {
				break
			}
			for _, ax := range w.builtinAxioms(t) {
				add(ax)
			}
			if m := w.extended(t); m != nil {
				next = append(next, m)
			}
			if t.Name == "toupper" || t.Name == "tolower" {
				cased = append(cased, t)
			}
			fn := specFns[t.Name]
			if fn == nil {
				continue
			}
			if s := t.Sort; s == SBool && len(t.Args) > 0 && (t.Args[0].Sort == SNode || t.Args[0].Sort.isSeq() && t.Args[0].Sort != "(Seq Int)") {
				preds = append(preds, t)
			}
			k := specKey(fn, t.Args)
			if !lemmaDone[k] {
				lemmaDone[k] = true
				for _, l := range w.lemmas[specName(fn)] {
					c := w.smaller(ind, fn, t.Args)
					if c != False {
						add(Implies(c, w.specBody(l, t.Args)[0]))
					}
				}
			}
			if unfolded[k] || w.extern[fn] {
				continue
			}
			if el := w.allOf[specName(fn)]; el != nil {
				unfolded[k] = true
				alls = append(alls, t)
				sk := UF("some_"+specName(fn), SInt, t.Args[0])
				idx = append(idx, sk)
				add(Or(t, And(Le(Int(0), sk), Lt(sk, SeqLen(t.Args[0])), Not(w.specTerms(el, SeqNth(t.Args[0], sk))[0]))))
				continue
			}
			open := focus[specName(fn)] && round < fRounds || round < aRounds || onCons(t)
			if fRounds == guided && focus[specName(fn)] {
				open = round == 0 || !w.recursive(fn)
				if !open {
					d := kn.deep(w.specBody(fn, t.Args)[0])
					n := 0
					collect([]*Term{d}, func(*Term) { n++ })
					open = d.Op != "ite" && n < 60
				}
			}
			if !open && t.Sort == SBool {
				open = kn.deep(w.specBody(fn, t.Args)[0]).isConst()
			}
			if open {
				unfolded[k] = true
				body := w.specBody(fn, t.Args)
				for i := range body {
					u := specUF(fn, i, t.Args)
					d := kn.deep(body[i])
					if b, ok := kn.known[u.ID]; ok && b {
						add(d)
						learn(d)
					} else if ok {
						add(Not(d))
						learn(Not(d))
					} else {
						add(Eq(u, d))
					}
					if d.isConst() && d.Sort != SBool {
						kn.eqc[u.ID] = d
					}
					def[u.ID] = d
				}
			}
		}
		for _, t := range cased {
			for _, c := range consts[t.Args[0].ID] {
				if u := changeCase(t.Name, c); u != nil && !instDone[[2]int{t.ID, c.ID}] {
					instDone[[2]int{t.ID, c.ID}] = true
					add(Implies(Eq(t.Args[0], c), Eq(t, u)))
				}
			}
		}
		// a predicate on an unfolded application holds if it holds on the definition
		for _, t := range preds {
			if body := def[t.Args[0].ID]; body != nil && !moved[t.ID] {
				moved[t.ID] = true
				fn := specFns[t.Name]
				add(Eq(t, w.throughIte(fn, body, t.Args[1:])))
			}
		}
		for _, t := range alls {
			el := w.allOf[specName(specFns[t.Name])]
			for _, i := range idx {
				if len(out) >= maxFacts {
					break
				}
				if instDone[[2]int{t.ID, i.ID}] {
					continue
				}
				instDone[[2]int{t.ID, i.ID}] = true
				xs := t.Args[0]
				add(Implies(And(t, Le(Int(0), i), Lt(i, SeqLen(xs))), w.specTerms(el, SeqNth(xs, i))[0]))
			}
		}
		if len(next) == 0 || len(out) >= maxFacts {
			break
		}
		frontier = next
	}
	return out
}

// onCons: the function is applied to a known constructor, unfolding it is computation.
func onCons(t *Term) bool { return len(t.Args) > 0 && t.Args[0].Op == "cons" }

// throughIte applies a predicate to the cases of a definition.
func (w *World) throughIte(fn *ssa.Function, t *Term, rest []*Term) *Term {
	if t.Op == "ite" {
		return Ite(t.Args[0], w.throughIte(fn, t.Args[1], rest), w.throughIte(fn, t.Args[2], rest))
	}
	return w.specTerms(fn, append([]*Term{t}, rest...)...)[0]
}

// extended is the application whose lemma is about a function on a list with one
// more element.
func (w *World) extended(t *Term) *Term {
	if t.Name != "spec.JoinFrom" || t.Args[0].Op != "seq.++" {
		return nil
	}
	as := t.Args[0].Args
	last := as[len(as)-1]
	if last.Op != "seq.unit" {
		return nil
	}
	return w.specTerms(w.spec("JoinWith"), SeqCat(t.Args[0].Sort, as[:len(as)-1]...), t.Args[1], t.Args[2], last.Args[0])[0]
}

// element is the application whose lemma is about an element of a list.
func (w *World) element(t *Term) *Term {
	l := t.Args[0]
	if l.Op != "uf" || l.Name != "spec.ValuesFrom" {
		return nil
	}
	return w.specTerms(w.spec("ValueIn"), l.Args[0], l.Args[1], t.Args[1])[0]
}

func (w *World) builtinAxioms(t *Term) []*Term {
	switch t.Name {
	case "at":
		r, i := t.Args[0], t.Args[1]
		in := And(Le(Int(0), i), Lt(i, SeqLen(r)))
		return []*Term{
			Implies(in, And(Le(Int(0), t), Le(t, Int(0x10ffff)))),
			Implies(Not(in), mk("=", "", 0, SBool, t, Int(endRune))),
		}
	case "trimspace":
		return []*Term{Eq(Eq(t, Str("")), w.specTerms(w.spec("Blank"), t.Args[0])[0])}
	case "fields":
		return []*Term{Eq(Eq(SeqLen(t), Int(0)), w.specTerms(w.spec("Blank"), t.Args[0])[0])}
	case "spec.IsName":
		if s := t.Args[0]; s.Op == "uf" && s.Name == "text" {
			b, i, j := s.Args[0], s.Args[1], s.Args[2]
			in := And(Le(Int(0), i), Le(i, j), Le(j, SeqLen(b)))
			return []*Term{Implies(in, Eq(t, And(Lt(i, j), w.specTerms(w.spec("Alpha"), b, i)[0], w.specTerms(w.spec("NameChars"), b, Add(i, Int(1)), j)[0])))}
		}
	case "equalfold":
		for i, a := range t.Args {
			if b := t.Args[1-i]; b.Op == "str" {
				if r := spells(t, a, b, true); r != nil {
					return r
				}
			}
		}
	case "parsebool", "parsebool_ok":
		if s := t.Args[0]; s.Op == "uf" && s.Name == "text" {
			is := func(x string) *Term { return literalAt(s.Args[0], s.Args[1], s.Args[2], x, false) }
			yes, no := Or(is("true"), is("TRUE")), Or(is("false"), is("FALSE"))
			v, ok := UF("parsebool", SBool, s), UF("parsebool_ok", SBool, s)
			return []*Term{Implies(yes, And(v, ok)), Implies(no, And(Not(v), ok))}
		}
	}
	return nil
}

// spells: t tells if the text a of a part of the input is the constant b, in any
// letter case if fold is set.
func spells(t, a, b *Term, fold bool) []*Term {
	if a.Op != "uf" || a.Name != "text" {
		return nil
	}
	for _, c := range b.Name {
		if c >= 128 {
			return nil
		}
	}
	r, i, j := a.Args[0], a.Args[1], a.Args[2]
	in := And(Le(Int(0), i), Le(i, j), Le(j, SeqLen(r)))
	return []*Term{Implies(in, Eq(t, literalAt(r, i, j, b.Name, fold)))}
}

// literalAt: the runes of b in [i,j) are those of the ASCII text x.
func literalAt(b, i, j *Term, x string, fold bool) *Term {
	var cs []*Term
	for k, c := range x {
		at := At(b, Add(i, Int(int64(k))))
		is := Eq(at, Int(int64(c)))
		if fold {
			for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
				is = Or(is, Eq(at, Int(int64(f))))
			}
		}
		cs = append(cs, is)
	}
	return And(append(cs, Eq(j, Add(i, Int(int64(len(x))))))...)
}

// termMu guards the construction of terms.
var termMu sync.Mutex

var dumpN int

type level struct{ f, a int }

var levels = []level{{1, 0}, {2, 0}, {2, 1}, {3, 2}}

// fastFail stops at the first obligation that fails.
var fastFail = os.Getenv("GOVC_FAST") != ""
var anyFailed int32

// unitStart and unitTime limit the time for the proofs of a unit.
var unitStart = time.Now()

const unitTime = 230 * time.Second

func late() bool { return time.Since(unitStart) > unitTime }

// discharge tries to prove an obligation.
func (w *World) discharge(o *Obligation, seconds int) {
	if o.Status == "proved" {
		return
	}
	termMu.Lock()
	asserts := append(append([]*Term{}, o.PC...), Not(o.Goal))
	termMu.Unlock()
	if fastFail && atomic.LoadInt32(&anyFailed) > 0 {
		o.Status, o.Solver, o.Detail = "unknown", "none", "skipped"
		return
	}
	defer func() {
		if o.Status != "proved" {
			atomic.AddInt32(&anyFailed, 1)
		}
	}()
	if late() {
		o.Status, o.Solver, o.Detail = "unknown", "none", "the time for the unit is used up"
		return
	}
	if caseAtom(o.Goal) != nil {
		if w.byCases(o, seconds) {
			o.Status, o.Solver, o.Detail = "proved", "z3-new", "by cases"
			return
		}
	}
	var last proveResult
	size := 0
	termMu.Lock()
	nf := w.narrow(o.Goal, o.Focus)
	var as []*Term
	if len(nf) > 0 && len(nf) < len(o.Focus) {
		as = w.expand(asserts, nf, guided, 0, o.Ind)
	}
	termMu.Unlock()
	if as != nil {
		if r := refute(as, min(seconds, 3), false); r.ok {
			o.Status, o.Solver, o.Detail = "proved", r.solver, "narrow"
			return
		}
	}
	for i, l := range levels {
		if i > 0 && late() {
			break
		}
		termMu.Lock()
		as := w.expand(asserts, o.Focus, l.f, l.a, o.Ind)
		termMu.Unlock()
		if d := os.Getenv("DUMP"); d != "" && strings.Contains(o.Unit+" "+o.Name, d) {
			termMu.Lock()
			os.WriteFile(fmt.Sprintf("/tmp/dump%d_%d.smt2", o.Goal.ID, i), []byte((&Query{as}).smtlib(false)), 0o644)
			termMu.Unlock()
		}
		if i > 0 && len(as) == size {
			continue
		}
		size = len(as)
		if os.Getenv("SLOW") != "" {
			fmt.Println("level", i, len(as), clip(o.Name, 50))
		}
		last = refute(as, seconds, i == len(levels)-1)
		if last.ok {
			o.Status = "proved"
			o.Solver = last.solver
			o.Detail = fmt.Sprintf("level %d", i)
			return
		}
	}
	o.Status = "unknown"
	if last.sat {
		o.Status = "failed"
	}
	o.Solver = last.solver
	o.Detail = last.detail
	o.Model = last.model
}

// byCases proves an obligation by the cases of the conditions in its goal.
func (w *World) byCases(o *Obligation, seconds int) bool {
	ls := cases(o.PC, o.Goal)
	if ls == nil {
		return false
	}
	for _, c := range ls {
		ok := false
		for i, l := range levels[:2] {
			termMu.Lock()
			as := w.expand(append(append([]*Term{}, c.pc...), Not(c.goal)), o.Focus, l.f, l.a, o.Ind)
			termMu.Unlock()
			if d := os.Getenv("DUMPC"); d != "" && strings.Contains(o.Unit+" "+o.Name, d) {
				dumpN++
				os.WriteFile(fmt.Sprintf("/tmp/c%d.smt2", dumpN), []byte((&Query{as}).smtlib(false)), 0o644)
				fmt.Println("case", dumpN, i, c.pc[len(c.pc)-3:], "=>", c.goal)
			}
			if seconds <= 2 && refuteQuick(as, i > 0) || seconds > 2 && refute(as, min(seconds, 5), false).ok {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// prove is an inline proof attempt, used for loop invariants.
func (x *Exec) prove(st *State, goal *Term) bool {
	g := st.simp(goal)
	if g == True {
		return true
	}
	if g == False && len(st.pc) == 0 {
		return false
	}
	var kb strings.Builder
	for _, t := range st.pc {
		fmt.Fprintf(&kb, "%d,", t.ID)
	}
	fmt.Fprintf(&kb, "=>%d", g.ID)
	if r, ok := proveMemo[kb.String()]; ok {
		return r
	}
	t0 := time.Now()
	o := &Obligation{PC: st.pc, Goal: g, Focus: x.focus}
	asserts := append(append([]*Term{}, o.PC...), Not(o.Goal))
	res := caseAtom(g) != nil && x.w.byCases(o, 2)
	if nf := x.w.narrow(g, o.Focus); !res && len(nf) > 0 && len(nf) < len(o.Focus) {
		res = refuteQuick(x.w.expand(asserts, nf, guided, 0, o.Ind), false)
	}
	for n, l := range levels[:2] {
		if res || n > 0 && g == False {
			break
		}
		as := x.w.expand(asserts, o.Focus, l.f, l.a, o.Ind)
		if d := os.Getenv("DUMPP"); d != "" {
			dumpN++
			os.WriteFile(fmt.Sprintf("/tmp/p%d.smt2", dumpN), []byte((&Query{as}).smtlib(false)), 0o644)
			fmt.Println("prove", dumpN, g)
		}
		if refuteQuick(as, n > 0) {
			res = true
			break
		}
	}
	proveMemo[kb.String()] = res
	if d := time.Since(t0); d > time.Second && os.Getenv("SLOW") != "" {
		fmt.Println("slow", d.Round(time.Millisecond), res, clip(g.String(), 600))
	}
	return res
}

// lemmaObligations states the lemmas on specification functions.
func (w *World) lemmaObligations(prefix string) []*Obligation {
	var names []string
	for n := range w.lemmas {
		if strings.HasPrefix(n, prefix) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var out []*Obligation
	for _, n := range names {
		fn := w.spec(n)
		for _, l := range w.lemmas[n] {
			var args []*Term
			for _, p := range l.Params {
				args = append(args, Var("l_"+p.Name(), sortOf(p.Type())))
			}
			goal := w.specBody(l, args)[0]
			focus := map[string]bool{n: true, "NameChars": true, "JoinFrom": n == "JoinWith", "ValuesFrom": n == "ValueIn"}
			for i, g := range conj(goal) {
				out = append(out, &Obligation{Unit: "lemma " + l.Name(), Name: fmt.Sprintf("part %d", i), Goal: g, Focus: focus, Ind: &induction{fn, args}})
			}
		}
	}
	return out
}
