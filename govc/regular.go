package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// The texts of an operator are a regular language, and what is done to them are
// replacements of regular expressions, trimming and changes of case, which are
// rational functions. So the values a term can have are computed exactly, as
// finite automata, for all texts of the language.

// alphabet is a partition of the runes into classes that nothing of interest
// tells apart. Case conversion maps classes to classes.
type alphabet struct {
	class        []int32 // by rune
	rep          []rune
	size         []int
	lower, upper []int
}

func newAlphabet(preds []func(r rune) bool) *alphabet {
	const n = unicode.MaxRune + 1
	a := &alphabet{class: make([]int32, n)}
	for r := 0xD800; r < 0xE000; r++ {
		a.class[r] = -1 // no rune of a text
	}
	refine := func(f func(r rune) int32) int {
		ids := map[[2]int32]int32{}
		next := make([]int32, n)
		for r := rune(0); r < n; r++ {
			if a.class[r] < 0 {
				next[r] = -1
				continue
			}
			k := [2]int32{a.class[r], f(r)}
			id, ok := ids[k]
			if !ok {
				id = int32(len(ids))
				ids[k] = id
			}
			next[r] = id
		}
		a.class = next
		return len(ids)
	}
	for len(preds) > 0 {
		k := min(len(preds), 31)
		refine(func(r rune) (bits int32) {
			for i, p := range preds[:k] {
				if p(r) {
					bits |= 1 << i
				}
			}
			return bits
		})
		preds = preds[k:]
	}
	for last := 0; ; {
		refine(func(r rune) int32 { return a.class[unicode.ToLower(r)] })
		k := refine(func(r rune) int32 { return a.class[unicode.ToUpper(r)] })
		if k == last {
			break
		}
		last = k
	}
	for r := rune(0); r < n; r++ {
		c := a.class[r]
		if c < 0 {
			continue
		}
		if int(c) == len(a.rep) {
			a.rep = append(a.rep, r)
			a.size = append(a.size, 0)
		}
		a.size[c]++
	}
	for _, r := range a.rep {
		a.lower = append(a.lower, int(a.class[unicode.ToLower(r)]))
		a.upper = append(a.upper, int(a.class[unicode.ToUpper(r)]))
	}
	return a
}

func (a *alphabet) word(s string) []int {
	var out []int
	for _, r := range s {
		out = append(out, int(a.class[r]))
	}
	return out
}

// fsa is a nondeterministic automaton; arcs with the symbol -1 read nothing.
type fsa struct {
	arcs  [][]arc
	start int
	final map[int]bool
}

type arc struct{ sym, to int }

func newFSA() *fsa { return &fsa{final: map[int]bool{}} }

func (f *fsa) state() int {
	f.arcs = append(f.arcs, nil)
	return len(f.arcs) - 1
}

func (f *fsa) add(from, sym, to int) {
	if sym < 0 && from == to {
		return
	}
	f.arcs[from] = append(f.arcs[from], arc{sym, to})
}

// path adds the word between two states.
func (f *fsa) path(from int, word []int, to int) {
	for i, s := range word {
		next := to
		if i+1 < len(word) {
			next = f.state()
		}
		f.add(from, s, next)
		from = next
	}
	if len(word) == 0 {
		f.add(from, -1, to)
	}
}

// closure adds what is reached without reading.
func (f *fsa) closure(set map[int]bool) map[int]bool {
	var todo []int
	for s := range set {
		todo = append(todo, s)
	}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, a := range f.arcs[s] {
			if a.sym < 0 && !set[a.to] {
				set[a.to] = true
				todo = append(todo, a.to)
			}
		}
	}
	return set
}

// useful are the states that are on a way from the start to the end.
func (f *fsa) useful() map[int]bool {
	back := make([][]int, len(f.arcs))
	for s, as := range f.arcs {
		for _, a := range as {
			back[a.to] = append(back[a.to], s)
		}
	}
	walk := func(from []int, next func(s int) []int) map[int]bool {
		seen := map[int]bool{}
		for len(from) > 0 {
			s := from[len(from)-1]
			from = from[:len(from)-1]
			if !seen[s] {
				seen[s] = true
				from = append(from, next(s)...)
			}
		}
		return seen
	}
	var ends []int
	for s := range f.final {
		ends = append(ends, s)
	}
	fwd := walk([]int{f.start}, func(s int) (out []int) {
		for _, a := range f.arcs[s] {
			out = append(out, a.to)
		}
		return
	})
	bwd := walk(ends, func(s int) []int { return back[s] })
	for s := range fwd {
		if !bwd[s] {
			delete(fwd, s)
		}
	}
	return fwd
}

func (f *fsa) empty() bool { return len(f.useful()) == 0 }

// single is the only word of the language, if there is just one.
func (f *fsa) single() ([]int, bool) {
	use := f.useful()
	if len(use) == 0 {
		return nil, false
	}
	var word []int
	set := f.closure(map[int]bool{f.start: true})
	for {
		final, sym := false, -1
		next := map[int]bool{}
		for s := range set {
			if !use[s] {
				continue
			}
			final = final || f.final[s]
			for _, a := range f.arcs[s] {
				if a.sym < 0 || !use[a.to] {
					continue
				}
				if sym >= 0 && sym != a.sym {
					return nil, false
				}
				sym = a.sym
				next[a.to] = true
			}
		}
		if final {
			return word, sym < 0
		}
		word = append(word, sym)
		set = f.closure(next)
	}
}

// words are the shortest words of the language, at most n.
func (f *fsa) words(n int) (out [][]int, all bool) {
	use := f.useful()
	type item struct {
		set  map[int]bool
		word []int
	}
	if len(use) == 0 {
		return nil, true
	}
	for todo := []item{{f.closure(map[int]bool{f.start: true}), nil}}; len(todo) > 0; todo = todo[1:] {
		it := todo[0]
		next := map[int]map[int]bool{}
		final := false
		for s := range it.set {
			if !use[s] {
				continue
			}
			final = final || f.final[s]
			for _, a := range f.arcs[s] {
				if a.sym >= 0 && use[a.to] {
					if next[a.sym] == nil {
						next[a.sym] = map[int]bool{}
					}
					next[a.sym][a.to] = true
				}
			}
		}
		if final {
			if len(out) == n {
				return out, false
			}
			out = append(out, it.word)
		}
		if len(todo) > 10000 {
			return out, false
		}
		var syms []int
		for c := range next {
			syms = append(syms, c)
		}
		sort.Ints(syms)
		for _, c := range syms {
			todo = append(todo, item{f.closure(next[c]), append(append([]int{}, it.word...), c)})
		}
	}
	return out, true
}

func (f *fsa) accepts(word []int) bool {
	set := f.closure(map[int]bool{f.start: true})
	for _, c := range word {
		next := map[int]bool{}
		for s := range set {
			for _, a := range f.arcs[s] {
				if a.sym == c {
					next[a.to] = true
				}
			}
		}
		set = f.closure(next)
	}
	for s := range set {
		if f.final[s] {
			return true
		}
	}
	return false
}

// transducer reads a word and writes others; its states are texts.
type transducer struct {
	start string
	step  func(state string, sym int) []move
	final func(state string) bool
}

type move struct {
	out  []int
	next string
}

// image is what the transducer makes of the words of an automaton.
func (f *fsa) image(t transducer) *fsa {
	type pair struct {
		s int
		t string
	}
	out := newFSA()
	ids := map[pair]int{}
	var todo []pair
	id := func(p pair) int {
		i, ok := ids[p]
		if !ok {
			i = out.state()
			ids[p] = i
			todo = append(todo, p)
			if len(ids) > 200000 {
				unsup("too many states of an automaton")
			}
		}
		return i
	}
	out.start = id(pair{f.start, t.start})
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		from := ids[p]
		if f.final[p.s] && t.final(p.t) {
			out.final[from] = true
		}
		for _, a := range f.arcs[p.s] {
			if a.sym < 0 {
				out.add(from, -1, id(pair{a.to, p.t}))
				continue
			}
			for _, m := range t.step(p.t, a.sym) {
				out.path(from, m.out, id(pair{a.to, m.next}))
			}
		}
	}
	return out
}

func mapping(f func(sym int) int) transducer {
	return transducer{
		step:  func(_ string, sym int) []move { return []move{{[]int{f(sym)}, ""}} },
		final: func(string) bool { return true },
	}
}

// trimming removes symbols at the ends.
func trimming(cut func(sym int) bool, left, right bool) transducer {
	start := "body"
	if left {
		start = "head"
	}
	return transducer{
		start: start,
		step: func(s string, c int) []move {
			keep := []int{c}
			switch {
			case s == "head" && cut(c):
				return []move{{nil, "head"}}
			case s == "tail" && cut(c):
				return []move{{nil, "tail"}}
			case s == "tail":
				return nil
			case !cut(c) || !right:
				return []move{{keep, "body"}}
			}
			return []move{{keep, "inner"}, {nil, "tail"}}
		},
		final: func(s string) bool { return s != "inner" },
	}
}

// machine runs a regular expression as the package regexp does: threads in the
// order of their priority, of which those after a match are dropped.
type machine struct {
	prog *syntax.Prog
	a    *alphabet
}

// list is the closure of some instructions, and whether they match already.
func (m machine) list(pcs []uint32) (string, bool) {
	var out []rune
	seen := map[uint32]bool{}
	matched := false
	var add func(pc uint32)
	add = func(pc uint32) {
		if matched || seen[pc] {
			return
		}
		seen[pc] = true
		switch i := &m.prog.Inst[pc]; i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(i.Out)
			add(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(i.Out)
		case syntax.InstMatch:
			matched = true
		case syntax.InstFail:
		case syntax.InstEmptyWidth:
			unsup("an assertion in a regular expression")
		default:
			out = append(out, rune(pc)+1)
		}
	}
	for _, pc := range pcs {
		add(pc)
	}
	return string(out), matched
}

func (m machine) step(list string, sym int) (string, bool) {
	var pcs []uint32
	for _, r := range list {
		if i := &m.prog.Inst[r-1]; i.MatchRune(m.a.rep[sym]) {
			pcs = append(pcs, i.Out)
		}
	}
	return m.list(pcs)
}

// replacing replaces all matches. It guesses where the matches are, and follows
// what must not match if the guess is right: an attempt at every place that is
// copied, and what is preferred to a match.
func (m machine) replacing(repl []int) transducer {
	init, empty := m.list([]uint32{uint32(m.prog.Start)})
	if empty {
		unsup("a regular expression that matches the empty text")
	}
	join := func(match string, never map[string]bool) string {
		var ks []string
		for k := range never {
			if k != "" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		return match + "\x00" + strings.Join(ks, "\x00")
	}
	return transducer{
		start: join("", nil),
		step: func(s string, c int) []move {
			parts := strings.Split(s, "\x00")
			match := parts[0]
			never := map[string]bool{}
			for _, l := range parts[1:] {
				if l == "" {
					continue
				}
				n, bad := m.step(l, c)
				if bad {
					return nil
				}
				never[n] = true
			}
			var out []move
			if match == "" {
				if n, bad := m.step(init, c); !bad {
					with := cp(never)
					with[n] = true
					out = append(out, move{[]int{c}, join("", with)})
				}
				match = init
			}
			n, done := m.step(match, c)
			if done {
				with := cp(never)
				with[n] = true
				out = append(out, move{repl, join("", with)})
			}
			if n != "" {
				out = append(out, move{nil, join(n, never)})
			}
			return out
		},
		final: func(s string) bool { return strings.HasPrefix(s, "\x00") },
	}
}

// spelling is a way to write an operator.
type spelling struct {
	op    string
	texts *fsa
}

// grammarOf reads languages off the specification.
type grammarOf struct {
	w     *World
	b     *Term
	a     *alphabet
	parts map[string]*part
}

// part is the language of a function of the specification.
type part struct {
	f    *fsa
	end  int
	open bool
}

// unfolded expands the functions that are not recursive.
func (w *World) unfolded(t *Term) *Term {
	memo := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t.ID]; ok {
			return r
		}
		r := t
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = walk(a)
			}
			r = rebuild(t, args)
		}
		if fn := specFns[r.Name]; r.Op == "uf" && fn != nil && !w.extern[fn] && !w.recursive(fn) && fn.Signature.Results().Len() == 1 {
			r = walk(w.specBody(fn, r.Args)[0])
		}
		memo[t.ID] = r
		return r
	}
	return walk(t)
}

// condition is an innermost condition in a term, nil if there is none.
func condition(t *Term) *Term {
	var found *Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			walk(a)
		}
		if found == nil && t.Op == "ite" {
			found = t.Args[0]
		}
	}
	walk(t)
	return found
}

// positions decides comparisons of positions with constants: no position that
// is read, or where a match ends, is negative.
func positions(t *Term) *Term {
	terms := map[int]*Term{}
	collect([]*Term{t}, func(t *Term) { terms[t.ID] = t })
	memo := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t.ID]; ok {
			return r
		}
		r := t
		if t.Op == "<=" {
			l := linOf(t.Args[0])
			pos, neg := l.c >= 0, l.c < 0
			for id, k := range l.m {
				v := terms[id]
				natural := v != nil && (v.Op == "var" || v.Op == "seq.len" || v.Op == "uf" && specFns[v.Name] != nil)
				pos, neg = pos && natural && k > 0, neg && natural && k < 0
			}
			if pos || neg {
				memo[t.ID] = Bool(pos)
				return memo[t.ID]
			}
		}
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = walk(a)
			}
			r = rebuild(t, args)
		}
		memo[t.ID] = r
		return r
	}
	return walk(t)
}

// branches are the cases of a term.
func branches(t *Term) []leaf {
	var out []leaf
	var split func(st *State, pc []*Term, t *Term)
	split = func(st *State, pc []*Term, t *Term) {
		t = positions(st.deep(t))
		c := condition(t)
		if c == nil {
			out = append(out, leaf{pc, t})
			if len(out) > 5000 {
				unsup("too many cases of a specification function")
			}
			return
		}
		for _, v := range []*Term{c, Not(c)} {
			s := st.clone()
			if s.assume(v) {
				split(s, append(append([]*Term{}, pc...), v), t)
			}
		}
	}
	split(newState(), nil, t)
	return out
}

func substitute(t, from, to *Term) *Term {
	memo := map[int]*Term{from.ID: to}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t.ID]; ok {
			return r
		}
		r := t
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = walk(a)
			}
			r = rebuild(t, args)
		}
		memo[t.ID] = r
		return r
	}
	return walk(t)
}

// compared are the constants that a rune is compared with, nil if there is more.
func compared(pc, c *Term) map[int64]bool {
	out := map[int64]bool{}
	collect([]*Term{pc}, func(t *Term) {
		for i, a := range t.Args {
			if a != c {
				continue
			}
			if t.Op == "=" && t.Args[1-i].Op == "int" {
				if out != nil {
					out[t.Args[1-i].I] = true
				}
			} else {
				out = nil
			}
		}
	})
	return out
}

// chain adds to f the texts from the position p to e, which pc restricts.
func (g *grammarOf) chain(f *fsa, from int, p, e *Term, pc []*Term, to int) {
	type piece struct {
		base *Term
		n    int64
	}
	var pieces []piece // the last first
	for {
		l := linOf(e)
		ks := l.keys()
		if len(ks) != 1 || l.m[ks[0]] != 1 || l.c < 0 {
			unsup("the end %v of a match", e)
		}
		base := Sub(e, Int(l.c))
		pieces = append(pieces, piece{base, l.c})
		if base == p {
			break
		}
		if base.Op != "uf" || specFns[base.Name] == nil || len(base.Args) != 2 || base.Args[0] != g.b {
			unsup("the end %v of a match", e)
		}
		e = base.Args[1]
	}
	type place struct {
		i  int
		o  int64
		pc int
	}
	states := map[place]int{}
	var walk func(at int, i int, o int64, pc *Term)
	walk = func(at int, i int, o int64, pc *Term) {
		if i < 0 {
			f.add(at, -1, to)
			return
		}
		ps := pieces[i]
		if o == 0 && ps.base != p {
			// the match of a recursive function before
			if ps.n == 0 && i == 0 {
				f.add(at, -1, g.entry(f, ps.base.Name, to))
				return
			}
			if ps.n == 0 {
				unsup("a match of %s that is not followed by a rune", ps.base.Name)
			}
			next := f.state()
			f.add(at, -1, g.entry(f, ps.base.Name, next))
			at = next
		}
		if o == ps.n {
			walk(at, i-1, 0, pc)
			return
		}
		c := At(g.b, Add(ps.base, Int(o)))
		plain := compared(pc, c)
		var other *Term
		for sym, r := range g.a.rep {
			var q *Term
			switch {
			case plain == nil || plain[int64(r)]:
				q = substitute(pc, c, Int(int64(r)))
			case other == nil:
				other = substitute(pc, c, Int(int64(r)))
				q = other
			default:
				q = other
			}
			if q == False {
				continue
			}
			k := place{i, o + 1, q.ID}
			if o+1 == ps.n {
				k = place{i - 1, 0, q.ID}
			}
			next, ok := states[k]
			if !ok {
				next = f.state()
				states[k] = next
				walk(next, k.i, k.o, q)
			}
			f.add(at, sym, next)
		}
	}
	walk(from, len(pieces)-1, 0, And(pc...))
}

// entry is where the texts of a function start, that end at a state.
func (g *grammarOf) entry(f *fsa, name string, to int) int {
	t := g.parts[name]
	if t == nil {
		t = &part{f: newFSA(), open: true}
		g.parts[name] = t
		t.f.start = t.f.state()
		t.end = t.f.state()
		p := Var("position", SInt)
		for _, l := range branches(g.w.unfolded(g.w.specBody(specFns[name], []*Term{g.b, p})[0])) {
			if l.goal.Op != "int" || l.goal.I >= 0 {
				g.chain(t.f, t.f.start, p, l.goal, l.pc, t.end)
			}
		}
		t.open = false
	}
	if t.open {
		if f != t.f || to != t.end {
			unsup("the recursion of %s", name)
		}
		return t.f.start
	}
	ids := make([]int, len(t.f.arcs))
	for i := range ids {
		ids[i] = to
		if i != t.end {
			ids[i] = f.state()
		}
	}
	for s, as := range t.f.arcs {
		for _, a := range as {
			f.add(ids[s], a.sym, ids[a.to])
		}
	}
	return ids[t.f.start]
}

// spellings are the ways to write operators, by the specification.
func (w *World) spellings(preds []func(r rune) bool) ([]spelling, *alphabet) {
	fn := w.spec("OpAt")
	b, i, j := Var("b", sortOf(fn.Params[0].Type())), Var("i", SInt), Var("j", SInt)
	var ls []leaf
	none := Var("none", SStr)
	for t := w.specBody(fn, []*Term{b, i, j})[0]; t != none; {
		// every case without what the cases before exclude
		c, rest := t, none
		if t.Op == "ite" {
			c, rest = Ite(t.Args[0], t.Args[1], none), t.Args[2]
		}
		ls = append(ls, branches(c)...)
		t = rest
	}
	// the constants that runes are compared with
	consts := map[int64]bool{}
	var todo []*Term
	for _, l := range ls {
		todo = append(todo, l.pc...)
	}
	done := map[string]bool{}
	for len(todo) > 0 {
		batch := todo
		todo = nil
		collect(batch, func(t *Term) {
			if t.Op == "int" {
				consts[t.I] = true
			}
			if fn := specFns[t.Name]; t.Op == "uf" && fn != nil && !w.extern[fn] && !done[t.Name] && len(t.Args) == 2 {
				done[t.Name] = true
				todo = append(todo, w.unfolded(w.specBody(fn, []*Term{b, i})[0]))
			}
		})
	}
	for c := range consts {
		if c >= 0 && c <= unicode.MaxRune {
			preds = append(preds, func(r rune) bool { return int64(r) == c })
		}
	}
	a := newAlphabet(preds)
	g := &grammarOf{w, b, a, map[string]*part{}}
	var out []spelling
	for _, l := range ls {
		if l.goal.Op != "str" {
			continue // no operator of the grammar
		}
		var end *Term
		for _, c := range conj(And(l.pc...)) {
			if c.Op != "=" || c.Args[0].Sort != SInt {
				continue
			}
			d := linOf(Sub(c.Args[0], c.Args[1]))
			switch d.m[j.ID] {
			case 1:
				end = Sub(j, Sub(c.Args[0], c.Args[1]))
			case -1:
				end = Sub(j, Sub(c.Args[1], c.Args[0]))
			}
		}
		if end == nil {
			unsup("a spelling of %s without an end", l.goal.Name)
		}
		f := newFSA()
		f.start = f.state()
		to := f.state()
		f.final[to] = true
		g.chain(f, f.start, i, end, l.pc, to)
		if !f.empty() {
			out = append(out, spelling{l.goal.Name, f})
		}
	}
	return out, a
}

// rational evaluates terms for all values of a variable in a language.
type rational struct {
	v     *Term
	in    *fsa
	a     *alphabet
	progs map[string]*syntax.Prog
	imgs  map[int]*fsa
	memo  map[int]*Term
}

func compiled(pattern string) *syntax.Prog {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		unsup("the regular expression %q", pattern)
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		unsup("the regular expression %q", pattern)
	}
	return prog
}

// blanks is the regular expression of one or more blanks.
func blanks() string {
	s := "["
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.IsSpace(r) {
			s += fmt.Sprintf(`\x{%x}`, r)
		}
	}
	return s + "]+"
}

// patterns are the regular expressions in terms.
func patterns(ts []*Term) map[string]*syntax.Prog {
	out := map[string]*syntax.Prog{}
	collect(ts, func(t *Term) {
		if t.Op == "uf" && t.Name == "replace_re" {
			out[t.Args[1].Name] = compiled(t.Args[1].Name)
		}
		if t.Op == "uf" && t.Name == "fields" {
			out[blanks()] = compiled(blanks())
		}
	})
	return out
}

func (r *rational) uses(t *Term) bool {
	found := false
	collect([]*Term{t}, func(u *Term) { found = found || u == r.v })
	return found
}

// image is the language of the values of a term, or of more; nil if unknown.
func (r *rational) image(t *Term) *fsa {
	if f, ok := r.imgs[t.ID]; ok {
		return f
	}
	f := r.imageOf(t)
	r.imgs[t.ID] = f
	return f
}

func (r *rational) imageOf(t *Term) *fsa {
	if t == r.v {
		return r.in
	}
	if t.Op == "str" {
		f := newFSA()
		f.start = f.state()
		to := f.state()
		f.path(f.start, r.a.word(t.Name), to)
		f.final[to] = true
		return f
	}
	if t.Op != "uf" || len(t.Args) == 0 {
		return nil
	}
	blank := func(sym int) bool { return unicode.IsSpace(r.a.rep[sym]) }
	if t.Name == "spec.JoinFrom" && t.Args[0].Op == "uf" && t.Args[0].Name == "fields" && t.Args[1] == Int(0) && t.Args[2].Op == "str" {
		f := r.image(t.Args[0].Args[0])
		if f == nil {
			return nil
		}
		f = f.image(trimming(blank, true, true))
		return f.image(machine{r.progs[blanks()], r.a}.replacing(r.a.word(t.Args[2].Name)))
	}
	f := r.image(t.Args[0])
	if f == nil {
		return nil
	}
	switch t.Name {
	case "trimspace":
		return f.image(trimming(blank, true, true))
	case "tolower":
		return f.image(mapping(func(s int) int { return r.a.lower[s] }))
	case "toupper":
		return f.image(mapping(func(s int) int { return r.a.upper[s] }))
	case "replace_re":
		return f.image(machine{r.progs[t.Args[1].Name], r.a}.replacing(r.a.word(t.Args[2].Name)))
	}
	return nil
}

// eval gives a term its value where it has just one.
func (r *rational) eval(t *Term) *Term {
	if v, ok := r.memo[t.ID]; ok {
		return v
	}
	v := r.evalOf(t)
	r.memo[t.ID] = v
	return v
}

func (r *rational) evalOf(t *Term) *Term {
	if t.Sort == SStr && r.uses(t) {
		if f := r.image(t); f != nil {
			if w, ok := f.single(); ok {
				s := ""
				for _, c := range w {
					if r.a.size[c] != 1 {
						return t
					}
					s += string(r.a.rep[c])
				}
				return Str(s)
			}
			return t
		}
	}
	if t.Op == "=" && t.Args[0].Sort == SStr {
		for i, c := range t.Args {
			if c.Op != "str" {
				continue
			}
			u := t.Args[1-i]
			if f := r.image(u); f != nil && r.eval(u).Op != "str" && !f.accepts(r.a.word(c.Name)) {
				return False
			}
		}
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = r.eval(a)
	}
	return rebuild(t, args)
}

// values splits on the values of the text that all terms are made of, if there
// are few.
func (r *rational) values(ts []*Term) []func(t *Term) *Term {
	var tops []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Sort == SStr && r.uses(t) && r.image(t) != nil {
			tops = append(tops, t)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	same := []func(t *Term) *Term{func(t *Term) *Term { return t }}
	if len(tops) != 1 {
		return same
	}
	ws, all := r.image(tops[0]).words(16)
	if !all {
		return same
	}
	var out []func(t *Term) *Term
	for _, w := range ws {
		s := ""
		for _, c := range w {
			if r.a.size[c] != 1 {
				return same
			}
			s += string(r.a.rep[c])
		}
		out = append(out, func(t *Term) *Term { return substitute(t, tops[0], Str(s)) })
	}
	return out
}

// regexOf is the pattern of a compiled regular expression.
func regexOf(v Value) string {
	o, ok := v.(OpaqueVal)
	if !ok || !strings.HasPrefix(o.Name, "regexp.MustCompile ") {
		unsup("a regular expression that is not a constant")
	}
	s, err := strconv.Unquote(strings.TrimPrefix(o.Name, "regexp.MustCompile "))
	if err != nil {
		unsup("a regular expression that is not a constant")
	}
	return s
}

func replaceRe(x *Exec, st *State, s Value, pattern string, repl Value, expand bool) []Outcome {
	t := x.term(repl)
	if t.Op != "str" || expand && strings.Contains(t.Name, "$") {
		unsup("the replacement of a regular expression")
	}
	return one(st, tv(UF("replace_re", SStr, x.term(s), Str(pattern), t)))
}

func init() {
	for n, h := range regularHandlers {
		depHandlers[n] = h
	}
}

var regularHandlers = map[string]Handler{
	"(*regexp.Regexp).ReplaceAllString": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
		return replaceRe(x, st, a[1], regexOf(a[0]), a[2], true)
	},
	"(*regexp.Regexp).ReplaceAllLiteralString": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
		return replaceRe(x, st, a[1], regexOf(a[0]), a[2], false)
	},
	"strings.ReplaceAll": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
		old := x.term(a[1])
		if old.Op != "str" || old.Name == "" {
			unsup("the replacement of an unknown text")
		}
		return replaceRe(x, st, a[0], syntaxQuote(old.Name), a[2], false)
	},
	"strings.Fields": func(x *Exec, st *State, a []Value, site *callSite) []Outcome {
		return one(st, fromTerm(UF("fields", seqOf(SStr), x.term(a[0])), types.NewSlice(types.Typ[types.String])))
	},
}

func syntaxQuote(s string) string {
	out := ""
	for _, r := range s {
		out += fmt.Sprintf(`\x{%x}`, r)
	}
	return out
}

// verifyNormalize checks that every spelling of an operator is turned into the
// operator.
func verifyNormalize(w *World) *Exec {
	fn := need(w.fn("miniquery.NormalizeOperation"), "NormalizeOperation")
	x := &Exec{w: w, unit: "miniquery.NormalizeOperation", maxSteps: 10000}
	v := Var("operator", SStr)
	outs := x.callBody(newState(), fn, nil, []Value{tv(v)})
	var ts []*Term
	for _, o := range outs {
		ts = append(ts, x.term(o.res[0]))
		ts = append(ts, o.st.pc...)
	}
	progs := patterns(ts)
	preds := []func(r rune) bool{unicode.IsSpace}
	letters := map[rune]bool{}
	collect(ts, func(t *Term) {
		if t.Op == "str" {
			for _, r := range t.Name {
				letters[r] = true
			}
		}
	})
	for c := range letters {
		preds = append(preds, func(r rune) bool { return r == c })
	}
	for _, p := range progs {
		for i := range p.Inst {
			switch in := &p.Inst[i]; in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				preds = append(preds, in.MatchRune)
			}
		}
	}
	sp, a := w.spellings(preds)
	for _, s := range sp {
		r := &rational{v, s.texts, a, progs, map[int]*fsa{}, map[int]*Term{}}
		for _, val := range r.values(ts) {
			for _, o := range outs {
				st := newState()
				feasible := true
				for _, c := range o.st.pc {
					feasible = feasible && st.assume(r.eval(val(c)))
				}
				if feasible {
					x.reached(st.clone(), "a spelling of "+s.op)
					x.oblige(st, Eq(r.eval(val(x.term(o.res[0]))), Str(s.op)), "every spelling of "+s.op+" is turned into it")
				}
			}
		}
	}
	if len(sp) == 0 {
		unsup("no spellings of operators")
	}
	return x
}
