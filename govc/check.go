package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A property is decided by the obligations of units, and by a search for an
// input on which the real code is not as specified.
type property struct {
	id       string
	units    func(all []string) []string
	mine     func(o OblResult) bool // obligations that say that the property holds
	bounded  []string               // what is covered by the bounded comparison only
	assume   []string
	seconds  int // of the comparison when everything is proved
	longer   int // of the comparison when an obligation fails or is out of reach
	tokens   int
	noSearch bool
}

const repoDir = "/repo"

type finding struct {
	Input    json.RawMessage `json:"input"`
	What     string          `json:"what"`
	Expected string          `json:"expected,omitempty"`
	Actual   string          `json:"actual,omitempty"`
	Known    string          `json:"known,omitempty"`
}

type searchReport struct {
	Tried      int       `json:"tried"`
	Distinct   int       `json:"distinct"`
	Enumerated int       `json:"enumerated_tokens"`
	Accepted   int       `json:"accepted"`
	Found      *finding  `json:"found"`
	Known      []finding `json:"known"`
	Samples    []string  `json:"samples"`
	note       string
}

// sourceWords collects the texts and numbers of the source under check.
func sourceWords() (words, nums []string) {
	seen := map[string]bool{}
	_ = filepath.Walk(repoDir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() && strings.HasPrefix(info.Name(), ".") && p != repoDir {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(p, -1, len(src)), src, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			if tok != token.STRING && tok != token.INT || seen[lit] {
				continue
			}
			seen[lit] = true
			if tok == token.INT {
				if n, err := strconv.ParseInt(lit, 0, 64); err == nil {
					nums = append(nums, strconv.FormatInt(n, 10))
				}
			} else if u, err := strconv.Unquote(lit); err == nil && len(u) < 64 {
				words = append(words, u)
			}
		}
		return nil
	})
	sort.Strings(words)
	sort.Strings(nums)
	return words, nums
}

// search compares the real code with the executable specification.
func search(p *property, dir string, seed, seconds int) (rep searchReport) {
	bin := filepath.Join(dir, "replay")
	build := exec.Command("go", "build", "-o", bin, "./cmd/replay")
	build.Dir = vspecDir
	build.Env = goEnv()
	if out, err := build.CombinedOutput(); err != nil {
		fatal("the comparison does not build: %v\n%s", err, out)
	}
	words, nums := sourceWords()
	wf := filepath.Join(dir, "words.json")
	b, _ := json.Marshal(map[string]any{"words": words, "nums": nums})
	if err := os.WriteFile(wf, b, 0o644); err != nil {
		fatal("%v", err)
	}
	run := func(extra ...string) ([]byte, string, error) {
		args := append([]string{"-prop", p.id, "-seed", fmt.Sprint(seed), "-seconds", fmt.Sprint(seconds), "-words", wf, "-tokens", fmt.Sprint(p.tokens)}, extra...)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(3*seconds+120)*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = dir
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.WaitDelay = 3 * time.Second
		err := cmd.Run()
		return so.Bytes(), se.String(), err
	}
	out, serr, err := run()
	if err != nil && strings.Contains(serr, "no checker for") {
		fatal("%s", serr)
	}
	if err == nil && json.Unmarshal(out, &rep) == nil {
		return rep
	}
	// the process died: find the input
	tf := filepath.Join(dir, "trace.json")
	_, serr2, err2 := run("-trace", tf)
	in, rerr := os.ReadFile(tf)
	if err2 == nil || rerr != nil {
		rep.note = "the comparison stopped: " + clip(serr, 300)
		return rep
	}
	rep.Found = &finding{Input: in, What: "the process dies", Actual: clip(serr2, 2000)}
	return rep
}

func goEnv() []string {
	env := append([]string{}, os.Environ()...)
	return append(env, "GOFLAGS=-mod=readonly")
}

// knownFindings reads the recorded findings of a property: name to description.
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(vspecDir), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" ")
		if !ok {
			continue
		}
		name, what, _ := strings.Cut(rest, " ")
		out[name] = what
	}
	return out
}

func matchUnits(pats ...string) func(all []string) []string {
	return func(all []string) []string {
		var out []string
		for _, n := range all {
			for _, p := range pats {
				if n == p || strings.HasSuffix(p, "*") && strings.HasPrefix(n, strings.TrimSuffix(p, "*")) {
					out = append(out, n)
					break
				}
			}
		}
		return out
	}
}

func hasAny(s string, xs ...string) bool {
	for _, x := range xs {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

func check(id string) int {
	t0 := time.Now()
	var p *property
	for _, q := range properties() {
		if q.id == id {
			p = q
		}
	}
	if p == nil {
		fatal("no property %s", id)
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base := filepath.Dir(vspecDir)
	for _, d := range []string{"evidence", "replays"} {
		if err := os.MkdirAll(filepath.Join(base, d), 0o755); err != nil {
			fatal("%v", err)
		}
	}
	tmp, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)

	var all []string
	for _, u := range allUnits() {
		all = append(all, u.Name)
	}
	results := runUnits(p.units(all), 300*time.Second)

	type count struct {
		Unit        string   `json:"unit"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Functions   []string `json:"functions,omitempty"`
		OutOfReach  string   `json:"out_of_reach,omitempty"`
		Seconds     float64  `json:"seconds"`
	}
	var units []count
	var failed []OblResult
	var outOfReach, absent []string
	obligations, discharged, others, loopInvs := 0, 0, 0, 0
	solvers := map[string]int{}
	funcs := map[string]bool{}
	uses := map[string]bool{}
	deps := map[string]bool{} // functions of dependencies
	var solverMs, solverCallsN, confirmedN, unconfirmedN, refusedN int64
	for _, r := range results {
		c := count{Unit: r.Name, Functions: r.Funcs, OutOfReach: r.Unsup, Seconds: r.Wall}
		for _, f := range r.Funcs {
			if strings.Contains(f, ".") && strings.Contains(strings.SplitN(f, "/", 2)[0], ".") && strings.Contains(f, "/") {
				deps[f] = true
			} else {
				funcs[f] = true
			}
		}
		for _, f := range r.Uses {
			uses[f] = true
		}
		solverMs += r.Millis
		solverCallsN += r.Calls
		confirmedN += r.Confirmed
		unconfirmedN += r.Unconfirmed
		refusedN += r.Refused
		if r.Unsup != "" {
			outOfReach = append(outOfReach, r.Name+": "+r.Unsup)
		}
		if r.Missing {
			absent = append(absent, r.Name)
		}
		for _, o := range r.Obls {
			if !strings.HasPrefix(r.Name, "lemmas") && !strings.HasPrefix(o.Name, "not vacuous") && !p.mine(o) {
				others++
				continue
			}
			obligations++
			c.Obligations++
			if strings.HasPrefix(o.Name, "loop invariant") {
				loopInvs++
			}
			if o.Status == "proved" {
				discharged++
				c.Discharged++
				solvers[o.Solver]++
			} else {
				failed = append(failed, o)
			}
		}
		units = append(units, c)
	}

	secs := p.seconds
	if len(failed) > 0 || len(outOfReach) > 0 {
		secs = p.longer
	}
	if tier == "thorough" {
		secs *= 4
	}
	var rep searchReport
	if !p.noSearch {
		rep = search(p, tmp, seed, secs)
	}

	known := knownFindings(id)
	var shown []string
	violation := rep.Found
	for _, k := range rep.Known {
		if what, ok := known[k.Known]; ok {
			shown = append(shown, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", id, what, clip(strings.Join(strings.Fields(string(k.Input)), " "), 200)))
		} else if violation == nil {
			f := k
			violation = &f
		}
	}

	replay := filepath.Join(base, "replays", id+".json")
	_ = os.Remove(replay)
	line := ""
	if violation != nil || len(failed) > 0 {
		doc := map[string]any{"property": id, "seed": seed}
		if violation != nil {
			doc["input"] = violation.Input
			doc["what"] = violation.What
			doc["expected"] = violation.Expected
			doc["actual"] = violation.Actual
			doc["replay_with"] = "bash /verif/replay.sh " + id + " " + replay
			line = fmt.Sprintf("VIOLATION property=%s replay=%s", id, replay)
		} else {
			line = fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", id, replay)
		}
		doc["failed_obligations"] = failed
		b, _ := json.MarshalIndent(doc, "", " ")
		if err := os.WriteFile(replay, b, 0o644); err != nil {
			fatal("%v", err)
		}
	}

	keys := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	trusted := []string{
		"the translation of go/ssa to verification conditions (/verif/govc), and go/ssa itself",
		"the SMT solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 (an unsat of z3 is asked of cvc5 again; a sat there counts as not proved)",
		"the specification /verif/vspec/spec (its functions are assumed to end)",
	}
	for _, u := range keys(uses) {
		trusted = append(trusted, "contract of a dependency, assumed: "+u)
	}
	cov := map[string]any{
		"obligations":                         obligations,
		"discharged":                          discharged,
		"checker_cmd":                         "bash /verif/check.sh " + id,
		"trusted_base":                        trusted,
		"obligations_of_others":               others,
		"discharged_by":                       solvers,
		"functions_verified":                  keys(funcs),
		"dependency_functions_executed":       keys(deps),
		"units":                               units,
		"solver_calls":                        solverCallsN,
		"solver_ms":                           solverMs,
		"z3_answers_confirmed_by_cvc5":        confirmedN,
		"z3_answers_not_confirmed":            unconfirmedN,
		"z3_answers_contradicted_and_dropped": refusedN,
		"out_of_reach":                        nonNil(outOfReach),
		"absent":                              nonNil(absent),
		"obligations_on_loop_invariants":      loopInvs,
		"bounded_comparison": map[string]any{
			"label":             "bounded: not counted as proved",
			"covers":            nonNil(p.bounded),
			"evaluations":       rep.Tried,
			"distinct":          rep.Distinct,
			"accepted_queries":  rep.Accepted,
			"all_token_strings": rep.Enumerated,
			"seconds":           secs,
			"samples":           nonNil(rep.Samples),
			"note":              rep.note,
		},
	}
	if len(failed) > 0 {
		var fs []string
		for _, f := range failed {
			fs = append(fs, f.Unit+": "+f.Name)
		}
		cov["failed"] = fs
	}
	nviol := 0
	if line != "" {
		nviol = 1
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": append(append([]string{}, commonAssumptions...), p.assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(base, "evidence", id+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s: %d obligations, %d discharged in %d units, %d functions, %d out of reach; %d inputs compared; %.0f s\n",
		id, obligations, discharged, len(units), len(funcs), len(outOfReach), rep.Distinct, time.Since(t0).Seconds())
	for _, u := range outOfReach {
		fmt.Println("out of reach:", clip(u, 300))
	}
	for _, f := range failed {
		fmt.Println("not discharged:", f.Unit+":", f.Name)
	}
	for _, s := range shown {
		fmt.Println(s)
	}
	if line != "" {
		if violation != nil {
			fmt.Printf("%s\n  input %s\n  expected %s\n  actual %s\n", violation.What, clip(string(violation.Input), 500), clip(violation.Expected, 1000), clip(violation.Actual, 1000))
		}
		fmt.Println(line)
		return 1
	}
	return 0
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}
