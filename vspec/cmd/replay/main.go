// Command replay compares the real code of the repository with the executable
// specification, to find a concrete input for an obligation that could not be
// discharged, and as a bounded stand-in for code the verifier cannot reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Case is an input: one query, or several, and a number that selects what they
// are applied to.
type Case struct {
	Queries []string `json:"queries"`
	Env     int      `json:"env,omitempty"`
}

func (c Case) String() string {
	if c.Env != 0 {
		return fmt.Sprintf("%q %d", c.Queries, c.Env)
	}
	return fmt.Sprintf("%q", c.Queries)
}

// Finding is an input on which the code is not as specified.
type Finding struct {
	Input    Case   `json:"input"`
	What     string `json:"what"`
	Expected string `json:"expected,omitempty"`
	Actual   string `json:"actual,omitempty"`
	Known    string `json:"known,omitempty"` // name of the recorded finding this is an instance of
}

// Report is the output.
type Report struct {
	Property  string    `json:"property"`
	Tried     int       `json:"tried"`
	Distinct  int       `json:"distinct"`
	Enumerate int       `json:"enumerated_tokens"` // every sequence of that many tokens was tried
	Accepted  int       `json:"accepted"`
	Found     *Finding  `json:"found,omitempty"`
	Known     []Finding `json:"known,omitempty"`
	Samples   []string  `json:"samples"`
}

// checker decides one property on one input; nil if it holds.
type checker struct {
	run    func(c Case) *Finding
	gen    func(g *gen) Case
	tokens int // depth of the exhaustive enumeration, 0 for none
	fixed  []Case
}

var checkers = map[string]*checker{}

type running struct {
	c Case
	t time.Time
}

var current atomic.Pointer[running]

// guarded runs the check of one input, catching panics of the code.
func (k *checker) guarded(c Case) (f *Finding) {
	current.Store(&running{c, time.Now()})
	defer func() {
		current.Store(nil)
		if r := recover(); r != nil {
			f = &Finding{Input: c, What: fmt.Sprintf("panic: %v", r), Actual: clip(string(debug.Stack()), 2500)}
		}
	}()
	f = k.run(c)
	if f != nil {
		f.Input = c
	}
	return f
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// shrink makes an input smaller while it still fails.
func (k *checker) shrink(f *Finding) *Finding {
	end := time.Now().Add(3 * time.Second)
	for again := true; again && time.Now().Before(end); {
		again = false
		try := func(c Case) bool {
			if g := k.guarded(c); g != nil && g.Known == "" && strings.HasPrefix(g.What, "panic") == strings.HasPrefix(f.What, "panic") {
				f, again = g, true
				return true
			}
			return false
		}
		if f.Input.Env != 0 && try(Case{f.Input.Queries, 0}) {
			continue
		}
		for i := range f.Input.Queries {
			if len(f.Input.Queries) > 1 {
				c := Case{append(append([]string{}, f.Input.Queries[:i]...), f.Input.Queries[i+1:]...), f.Input.Env}
				if try(c) {
					break
				}
			}
			r := []rune(f.Input.Queries[i])
			for n := len(r) / 2; n > 0 && !again; n /= 2 {
				for j := 0; j+n <= len(r) && time.Now().Before(end); j++ {
					c := Case{append([]string{}, f.Input.Queries...), f.Input.Env}
					c.Queries[i] = string(r[:j]) + string(r[j+n:])
					if try(c) {
						break
					}
				}
			}
			if again {
				break
			}
		}
	}
	return f
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	seconds := flag.Int("seconds", 10, "time budget")
	words := flag.String("words", "", "JSON file with texts and numbers of the source")
	depth := flag.Int("tokens", 0, "enumerate every sequence of that many tokens, 0 for the default")
	trace := flag.String("trace", "", "write every input to this file before it is tried")
	one := flag.String("one", "", "JSON file with one input to try")
	flag.Parse()
	debug.SetMaxStack(1 << 28)
	k := checkers[*prop]
	if k == nil {
		fmt.Fprintln(os.Stderr, "no checker for", *prop)
		os.Exit(2)
	}
	rep := Report{Property: *prop, Samples: []string{}}
	emit := func() {
		e := json.NewEncoder(os.Stdout)
		e.SetIndent("", " ")
		e.Encode(rep)
		os.Exit(0)
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if r := current.Load(); r != nil && time.Since(r.t) > 5*time.Second {
				rep.Found = &Finding{Input: r.c, What: "no result after 5 s"}
				emit()
			}
		}
	}()
	if *one != "" {
		b, err := os.ReadFile(*one)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var in struct {
			Input Case `json:"input"`
		}
		if err := json.Unmarshal(b, &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		rep.Tried = 1
		rep.Found = k.guarded(in.Input)
		emit()
	}
	var src struct {
		Words []string `json:"words"`
		Nums  []string `json:"nums"`
	}
	if *words != "" {
		b, err := os.ReadFile(*words)
		if err == nil {
			_ = json.Unmarshal(b, &src)
		}
	}
	end := time.Now().Add(time.Duration(*seconds) * time.Second)
	seen := map[string]bool{}
	known := map[string]bool{}
	try := func(c Case) bool {
		rep.Tried++
		key := fmt.Sprint(c.Env, strings.Join(c.Queries, "\x01"))
		if len(seen) < 2000000 {
			if seen[key] {
				return true
			}
			seen[key] = true
		}
		rep.Distinct++
		if *trace != "" {
			b, _ := json.Marshal(c)
			_ = os.WriteFile(*trace, b, 0o644)
		}
		f := k.guarded(c)
		if len(rep.Samples) < 3 && rep.Tried%50 == 17 {
			rep.Samples = append(rep.Samples, c.String())
		}
		if f == nil {
			return true
		}
		if f.Known != "" {
			if !known[f.Known] {
				known[f.Known] = true
				rep.Known = append(rep.Known, *f)
			}
			return true
		}
		rep.Found = k.shrink(f)
		return false
	}
	for _, c := range k.fixed {
		if !try(c) {
			emit()
		}
	}
	d := k.tokens
	if *depth > 0 {
		d = *depth
	}
	// first what is likely to hit, then everything small, then more at random
	g := newGen(*seed, src.Words, src.Nums)
	random := func(until time.Time) {
		for n := 0; ; n++ {
			if n%64 == 0 && time.Now().After(until) {
				return
			}
			if !try(k.gen(g)) {
				emit()
			}
		}
	}
	random(time.Now().Add(time.Duration(*seconds) * time.Second / 3))
	for n := 1; n <= d; n++ {
		ok := enumerate(n, func(s string) bool { return try(Case{[]string{s}, 0}) && time.Now().Before(end.Add(20*time.Second)) })
		if rep.Found != nil {
			emit()
		}
		if !ok {
			break
		}
		rep.Enumerate = n
	}
	random(end)
	rep.Accepted = accepted
	emit()
}
