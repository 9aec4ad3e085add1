package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// A unit is a function (or a group of functions that are executed together) that
// is verified against its contract. Every unit is verified by a process of its own.
type Unit struct {
	Name string
	Pkgs []string // packages of the repository to load, besides miniquery
	Run  func(w *World) []*Exec
}

// OblResult is an obligation in the report of a unit.
type OblResult struct {
	Unit   string `json:"unit"`
	Name   string `json:"name"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	Detail string `json:"detail,omitempty"`
	Goal   string `json:"goal,omitempty"`
	Facts  string `json:"facts,omitempty"`
	Model  string `json:"model,omitempty"`
}

// UnitResult is the report of a unit.
type UnitResult struct {
	Name        string            `json:"name"`
	Missing     bool              `json:"missing,omitempty"` // the repository has no such function
	Unsup       string            `json:"unsupported,omitempty"`
	Funcs       []string          `json:"functions"`
	Obls        []OblResult       `json:"obligations"`
	Notes       []string          `json:"notes,omitempty"`
	Uses        []string          `json:"uses,omitempty"` // assumed contracts of dependencies
	Calls       int64             `json:"solver_calls"`
	Millis      int64             `json:"solver_ms"`
	Confirmed   int64             `json:"confirmed"`   // answers of z3 that cvc5 gives too
	Unconfirmed int64             `json:"unconfirmed"` // answers of z3 that cvc5 does not reach
	Refused     int64             `json:"refused"`     // answers of z3 that cvc5 contradicts, not used
	Wall        float64           `json:"wall_s"`
	Info        map[string]string `json:"info,omitempty"`
}

func (r *UnitResult) failed() []OblResult {
	var out []OblResult
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

// missing is raised when the function of a unit does not exist.
type missing struct{ what string }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// runUnit verifies one unit in this process.
func runUnit(u Unit, seconds int) (res UnitResult) {
	t0 := time.Now()
	res.Name = u.Name
	defer func() {
		res.Calls, res.Millis = solverCalls.Load(), solverMillis.Load()
		res.Confirmed, res.Unconfirmed, res.Refused = crossConfirmed.Load(), crossUnknown.Load(), crossRefused.Load()
		res.Wall = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Unsup = r.msg
			case missing:
				res.Missing = true
				res.Notes = append(res.Notes, "there is no "+r.what)
			default:
				panic(r)
			}
		}
	}()
	w := loadWorld(vspecDir, append([]string{"vspec/spec", modPath + "miniquery"}, u.Pkgs...)...)
	registerRecord(w.pegNamed("Node"), SNode, "nil_Node")
	funcs := map[string]bool{}
	uses := map[string]bool{}
	for _, x := range u.Run(w) {
		for f := range x.funcs {
			funcs[f] = true
		}
		for f := range x.uses {
			uses[f] = true
		}
		res.Notes = append(res.Notes, x.loopNotes...)
		dischargeAll(w, x.obls, seconds)
		for _, o := range append(x.obls, x.reachObligations()...) {
			r := OblResult{Unit: o.Unit, Name: o.Name, Status: o.Status, Solver: o.Solver}
			if o.Status != "proved" {
				r.Detail = clip(o.Detail, 2000)
				r.Goal = clip(o.Goal.String(), 4000)
				var b strings.Builder
				for _, t := range o.PC {
					b.WriteString(t.String() + "\n")
				}
				r.Facts = clip(b.String(), 12000)
				r.Model = clip(o.Model, 8000)
			}
			res.Obls = append(res.Obls, r)
		}
	}
	if len(res.Obls) == 0 {
		res.Obls = append(res.Obls, OblResult{Unit: u.Name, Name: "not vacuous: an obligation", Status: "failed", Detail: "no obligation was generated"})
	}
	for f := range funcs {
		res.Funcs = append(res.Funcs, f)
	}
	for f := range uses {
		res.Uses = append(res.Uses, f)
	}
	sort.Strings(res.Funcs)
	sort.Strings(res.Uses)
	return res
}

// runUnits verifies units in parallel, each in a process of its own.
func runUnits(names []string, limit time.Duration) []UnitResult {
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	out := make([]UnitResult, len(names))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i, n := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			defer cancel()
			t0 := time.Now()
			cmd := exec.CommandContext(ctx, self, "unit", n)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			cmd.WaitDelay = 5 * time.Second
			err := cmd.Run()
			r := UnitResult{Name: n, Wall: time.Since(t0).Seconds()}
			if jerr := json.Unmarshal(so.Bytes(), &r); jerr != nil || err != nil {
				switch {
				case ctx.Err() != nil:
					r.Unsup = fmt.Sprintf("no result within %v", limit)
				case err != nil && strings.Contains(se.String(), "the packages do not compile"):
					fatal("%s", se.String())
				default:
					r.Unsup = "the verifier stopped: " + clip(se.String(), 600)
				}
			}
			out[i] = r
		}()
	}
	wg.Wait()
	return out
}
