package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Query is a set of assertions to be refuted.
type Query struct {
	asserts []*Term
}

// collect visits every subterm once.
func collect(ts []*Term, f func(t *Term)) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			walk(a)
		}
		f(t)
	}
	for _, t := range ts {
		walk(t)
	}
}

// nthAxioms says what the elements of concatenations and parts of sequences are,
// for the elements that occur.
func nthAxioms(asserts []*Term) []*Term {
	var out []*Term
	var todo []*Term
	seen := map[int]bool{}
	eqs := map[int][]*Term{}
	add := func(t *Term) {
		if t.Op == "seq.nth" && !seen[t.ID] {
			seen[t.ID] = true
			todo = append(todo, t)
		}
	}
	collect(asserts, func(t *Term) {
		add(t)
		if t.Op == "=" && strings.HasPrefix(string(t.Args[0].Sort), "(Seq") {
			eqs[t.Args[0].ID] = append(eqs[t.Args[0].ID], t.Args[1])
			eqs[t.Args[1].ID] = append(eqs[t.Args[1].ID], t.Args[0])
		}
	})
	for n := 0; n < len(todo) && n < 400; n++ {
		t := todo[n]
		s, i := t.Args[0], t.Args[1]
		fact := func(cond, v *Term) {
			if f := Implies(cond, Eq(t, v)); f != True {
				out = append(out, f)
				collect([]*Term{v}, add)
			}
		}
		switch s.Op {
		case "seq.unit":
			fact(Eq(i, Int(0)), s.Args[0])
		case "seq.++":
			off := Int(0)
			for _, p := range s.Args {
				end := Add(off, SeqLen(p))
				fact(And(Le(off, i), Lt(i, end)), SeqNth(p, Sub(i, off)))
				off = end
			}
		case "seq.sub":
			lo, hi := s.Args[1], s.Args[2]
			fact(And(Le(Int(0), lo), Le(Int(0), i), Lt(i, Sub(hi, lo)), Le(hi, SeqLen(s.Args[0]))), SeqNth(s.Args[0], Add(lo, i)))
		case "ite":
			fact(s.Args[0], SeqNth(s.Args[1], i))
			fact(Not(s.Args[0]), SeqNth(s.Args[2], i))
		}
		for _, e := range eqs[s.ID] {
			fact(Eq(s, e), SeqNth(e, i))
		}
	}
	return out
}

// smtlib prints a query with shared subterms.
func (q *Query) smtlib(models bool) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if models {
		b.WriteString("(set-option :produce-models true)\n")
	}
	b.WriteString(datatypeDecl())
	b.WriteString("(declare-sort Map 0)\n")
	type sig struct {
		name string
		args []Sort
		res  Sort
	}
	sigs := map[string]sig{}
	refs := map[int]int{}
	q.asserts = append(q.asserts[:len(q.asserts):len(q.asserts)], nthAxioms(q.asserts)...)
	collect(q.asserts, func(t *Term) {
		if t.Op == "seq.nth" {
			n := nthName(t.Sort)
			sigs[n] = sig{n, []Sort{t.Args[0].Sort, SInt}, t.Sort}
		}
		for _, a := range t.Args {
			refs[a.ID]++
		}
		switch t.Op {
		case "var":
			sigs[t.Name] = sig{t.Name, nil, t.Sort}
		case "uf":
			var as []Sort
			for _, a := range t.Args {
				as = append(as, a.Sort)
			}
			if s, ok := sigs[t.Name]; ok && len(s.args) != len(as) {
				panic("arity of " + t.Name)
			}
			sigs[t.Name] = sig{t.Name, as, t.Sort}
		}
	})
	var names []string
	for n := range sigs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := sigs[n]
		b.WriteString("(declare-fun " + smtName(n) + " (")
		for i, a := range s.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a))
		}
		b.WriteString(") " + string(s.res) + ")\n")
	}
	named := map[int]string{}
	collect(q.asserts, func(t *Term) {
		if refs[t.ID] > 1 && len(t.Args) > 0 {
			fmt.Fprintf(&b, "(define-fun t%d () %s ", t.ID, t.Sort)
			t.write(&b, named)
			b.WriteString(")\n")
			named[t.ID] = fmt.Sprintf("t%d", t.ID)
		}
	})
	for _, a := range q.asserts {
		b.WriteString("(assert ")
		a.write(&b, named)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	if models {
		b.WriteString("(get-model)\n")
	}
	return b.String()
}

type backend struct {
	name string
	args func(seconds int) []string
}

// The time limits are limits of processor time: how busy the machine is makes no
// difference.
var backends = []backend{
	{"z3-new", func(s int) []string { return []string{"z3-new", "-in"} }},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", "--dt-nested-rec", "--strings-exp", "-"}
	}},
	{"z3", func(s int) []string { return []string{"z3", "-in"} }},
}

var (
	solverCalls  atomic.Int64
	solverMillis atomic.Int64
	starved      atomic.Bool // a solver did not get its processor time
	solverSem    = make(chan struct{}, 8)
)

// runSolver returns sat, unsat or unknown.
func runSolver(ctx context.Context, be backend, in string, seconds int) (string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	start := time.Now()
	solverCalls.Add(1)
	av := be.args(seconds)
	ctx, cancel := context.WithTimeout(ctx, time.Duration(5*seconds+5)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "sh", append([]string{"-c", fmt.Sprintf(`ulimit -t %d; exec "$@"`, seconds), "sh"}, av...)...)
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	if ctx.Err() == context.DeadlineExceeded {
		starved.Store(true)
	}
	if os.Getenv("SLOW") != "" && time.Since(start) > time.Second {
		fmt.Println("solver", be.name, seconds, time.Since(start).Round(time.Millisecond), cmd.ProcessState, len(in))
	}
	solverMillis.Add(time.Since(start).Milliseconds())
	s := out.String()
	line, rest, _ := strings.Cut(s, "\n")
	line = strings.TrimSpace(line)
	switch line {
	case "sat", "unsat":
		return line, rest
	}
	if strings.Contains(s, "(error") && !strings.Contains(s, "timeout") && !strings.Contains(s, "interrupted") {
		return "error", s
	}
	return "unknown", s
}

type proveResult struct {
	ok     bool
	sat    bool
	solver string
	detail string
	model  string
}

var (
	crossCheck     = os.Getenv("GOVC_NOCROSS") == ""
	crossConfirmed atomic.Int64
	crossUnknown   atomic.Int64
	crossRefused   atomic.Int64
)

// confirmed asks cvc5 about an answer of z3. A query that cvc5 can satisfy is not
// refuted.
func confirmed(in string) bool {
	if !crossCheck {
		return true
	}
	switch r, _ := runSolver(context.Background(), backends[1], in, 5); r {
	case "sat":
		crossRefused.Add(1)
		if d := os.Getenv("GOVC_DISAGREE"); d != "" {
			_ = os.WriteFile(fmt.Sprintf("%s/disagree%d.smt2", d, solverCalls.Load()), []byte(in), 0o644)
		}
		return false
	case "unsat":
		crossConfirmed.Add(1)
	default:
		crossUnknown.Add(1)
	}
	return true
}

// refuteQuick is refute with little time, for proofs that are expected to be easy.
func refuteQuick(asserts []*Term, more bool) bool {
	q := &Query{asserts}
	in := q.smtlib(false)
	r, d := runSolver(context.Background(), backends[0], in, 2)
	if r == "error" {
		panic(fmt.Sprintf("solver rejects the query: %s\n%s", d, in))
	}
	if r == "unknown" && more {
		r, _ = runSolver(context.Background(), backends[1], in, 3)
		return r == "unsat"
	}
	return r == "unsat" && confirmed(in)
}

// refute tries to show that the assertions are contradictory.
func refute(asserts []*Term, seconds int, wantModel bool) proveResult {
	q := &Query{asserts}
	termMu.Lock()
	in := q.smtlib(false)
	termMu.Unlock()
	r, d := runSolver(context.Background(), backends[0], in, min(seconds, 3))
	if r == "unsat" && confirmed(in) {
		return proveResult{ok: true, solver: backends[0].name}
	}
	res := proveResult{sat: r == "sat", solver: backends[0].name, detail: r + " " + d}
	if r == "error" {
		panic(fmt.Sprintf("solver rejects the query: %s\n%s", d, in))
	}
	if r != "sat" {
		// portfolio
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type ans struct{ r, d, n string }
		ch := make(chan ans, len(backends))
		for _, be := range backends {
			go func(be backend) {
				r, d := runSolver(ctx, be, in, seconds)
				ch <- ans{r, d, be.name}
			}(be)
		}
		for range backends {
			a := <-ch
			if a.r == "unsat" && (a.n == "cvc5" || confirmed(in)) {
				return proveResult{ok: true, solver: a.n}
			}
			if a.r == "sat" {
				res.sat = true
				res.solver = a.n
				res.detail = "sat"
				break
			}
			res.detail += "; " + a.n + ": " + a.r
		}
	}
	if wantModel && res.sat {
		termMu.Lock()
		in := q.smtlib(true)
		termMu.Unlock()
		_, res.model = runSolver(context.Background(), backends[0], in, min(seconds, 10))
	}
	return res
}

var (
	proveMu   sync.Mutex
	proveMemo = map[string]bool{}
)
