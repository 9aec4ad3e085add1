package main

import (
	"cmp"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

//go:embed contracts.txt
var contractText string

func loadContracts() map[string]*ruleContract {
	rules := map[string]*ruleContract{}
	var cur *ruleContract
	for _, l := range strings.Split(contractText, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		kind, rest, _ := strings.Cut(l, " ")
		switch kind {
		case "rule":
			n, s, _ := strings.Cut(rest, "=")
			cur = &ruleContract{rule: strings.TrimSpace(n), spec: strings.TrimSpace(s), rank: len(rules)}
			rules[cur.rule] = cur
		case "loop", "fact":
			f, a, _ := strings.Cut(strings.TrimSuffix(strings.TrimSpace(rest), ")"), "(")
			t := tailRule{fn: f}
			for _, x := range strings.Split(a, ",") {
				t.args = append(t.args, strings.TrimSpace(x))
			}
			if kind == "loop" {
				cur.loops = append(cur.loops, t)
			} else {
				cur.facts = append(cur.facts, t)
			}
		default:
			fatal("contracts: %s", l)
		}
	}
	return rules
}

func dischargeAll(w *World, obls []*Obligation, seconds int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, o := range obls {
		if o.Status == "proved" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			w.discharge(o, seconds)
			<-sem
		}()
	}
	wg.Wait()
	// once more with more time if the machine is busy
	if !starved.Load() {
		return
	}
	end := time.Now().Add(time.Duration(4*seconds) * time.Second)
	for _, o := range obls {
		if o.Status == "unknown" && time.Now().Before(end) {
			w.discharge(o, 2*seconds)
		}
	}
}

func report(unit string, obls []*Obligation, t0, t1 time.Time) {
	cnt := map[string]int{}
	for _, o := range obls {
		cnt[o.Status]++
	}
	fmt.Printf("%s: %d obligations %v gen %v solve %v\n", unit, len(obls), cnt, t1.Sub(t0).Round(time.Millisecond), time.Since(t1).Round(time.Millisecond))
	last := ""
	if a := os.Getenv("ALL"); a != "" {
		for _, o := range obls {
			if strings.Contains(o.Name, a) {
				fmt.Println("    --", o.Status, o.Name, o.Solver)
				for _, t := range o.PC {
					fmt.Println("        ", t)
				}
				fmt.Println("      =>", o.Goal)
			}
		}
	}
	for _, o := range obls {
		if o.Status != "proved" && o.Unit+o.Name != last {
			fmt.Println("   ", o.Status, o.Unit, o.Name, strings.ReplaceAll(o.Detail, "\n", " "))
			last = o.Unit + o.Name
			if os.Getenv("V") != "" {
				for _, t := range o.PC {
					fmt.Println("        ", t)
				}
				fmt.Println("      =>", o.Goal)
			}
		}
	}
}

var vspecDir = cmp.Or(os.Getenv("GOVC_SPEC"), "/verif/vspec")

func main() {
	if len(os.Args) < 2 {
		fatal("usage: govc check|unit|units|debug …")
	}
	switch os.Args[1] {
	case "units":
		for _, u := range allUnits() {
			fmt.Println(u.Name)
		}
	case "unit":
		for _, u := range allUnits() {
			if u.Name == os.Args[2] {
				r := runUnit(u, 10)
				b, _ := json.Marshal(r)
				os.Stdout.Write(b)
				return
			}
		}
		fatal("no unit %s", os.Args[2])
	case "debug":
		debug(os.Args[2:])
		if crossCheck {
			fmt.Println("answers of z3 that cvc5 confirms:", crossConfirmed.Load(), "cannot decide:", crossUnknown.Load())
		}
	case "check":
		os.Exit(check(os.Args[2]))
	}
}

// debug prints the obligations of units.
func debug(names []string) {
	for _, u := range allUnits() {
		want := len(names) == 0
		for _, n := range names {
			want = want || n == u.Name || strings.HasSuffix(n, "*") && strings.HasPrefix(u.Name, strings.TrimSuffix(n, "*"))
		}
		if !want {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case unsupported:
						fmt.Printf("%s: UNSUPPORTED %s\n", u.Name, r.msg)
						if os.Getenv("TRACE") != "" {
							panic(r)
						}
					case missing:
						fmt.Printf("%s: there is no %s\n", u.Name, r.what)
					default:
						panic(r)
					}
				}
			}()
			if debugWorld == nil {
				debugWorld = loadWorld(vspecDir, append([]string{"vspec/spec", modPath + "miniquery"}, u.Pkgs...)...)
				registerRecord(debugWorld.pegNamed("Node"), SNode, "nil_Node")
			}
			t0 := time.Now()
			xs := u.Run(debugWorld)
			t1 := time.Now()
			var obls []*Obligation
			for _, x := range xs {
				dischargeAll(debugWorld, x.obls, 10)
				sort.SliceStable(x.obls, func(i, j int) bool { return x.obls[i].Name < x.obls[j].Name })
				obls = append(obls, x.obls...)
				for _, n := range x.loopNotes {
					fmt.Println("    note", n)
				}
			}
			report(u.Name, obls, t0, t1)
		}()
	}
}

var debugWorld *World

// allUnits lists the units.
func allUnits() []Unit {
	var us []Unit
	lemmas := func(prefix string) func(w *World) []*Exec {
		return func(w *World) []*Exec {
			return []*Exec{{w: w, unit: "lemmas", obls: w.lemmaObligations(prefix)}}
		}
	}
	us = append(us, Unit{Name: "lemmas", Run: lemmas("")}, Unit{Name: "lemmas on values", Run: lemmas("Value")})
	cs := loadContracts()
	parser := func(f func(p *Parser) *Exec) func(w *World) []*Exec {
		return func(w *World) []*Exec { return []*Exec{f(newParser(w, cs))} }
	}
	us = append(us,
		Unit{Name: "Parse", Run: parser((*Parser).verifyParse)},
		Unit{Name: "messages of errors", Run: parser((*Parser).verifyMessage)},
		Unit{Name: "tokens32.Add", Run: parser((*Parser).verifyAdd)},
	)
	one := func(f func(w *World) *Exec) func(w *World) []*Exec {
		return func(w *World) []*Exec { return []*Exec{f(w)} }
	}
	us = append(us,
		Unit{Name: "Node.Value", Run: one(verifyValue)},
		Unit{Name: "Node.String", Run: one(verifyString)},
		Unit{Name: "Build", Run: one(verifyBuild)},
		Unit{Name: "Join", Run: one(verifyJoin)},
		Unit{Name: "Visitor.Visit", Run: one(verifyVisit)},
		Unit{Name: "Visitor.Init", Run: one(verifyInit)},
		Unit{Name: "NormalizeOperation", Run: one(verifyNormalize)},
	)
	ql := []string{"vspec/espec", modPath + "entmq", "entgo.io/ent/entql"}
	us = append(us,
		Unit{Name: "lemmas entql", Pkgs: ql, Run: lemmas("espec.QL")},
		Unit{Name: "MiniQLToEntQLBuilder.Build", Pkgs: ql, Run: one(verifyQLBuild)},
		Unit{Name: "BuildEntQL", Pkgs: ql, Run: one(verifyBuildEntQL)},
		Unit{Name: "ApplyEntQL", Pkgs: ql, Run: one(verifyApplyEntQL)},
	)
	gorm := []string{"vspec/gspec", modPath + "gormq"}
	us = append(us,
		Unit{Name: "GetOrParseSchema", Pkgs: gorm, Run: verifySchema},
		Unit{Name: "WireMiniQuery", Pkgs: gorm, Run: verifyWire},
		Unit{Name: "ApplyMiniQuery", Pkgs: gorm, Run: one(verifyApply)},
		Unit{Name: "MiniQuery.Scope", Pkgs: gorm, Run: one(verifyScope)},
		Unit{Name: "errors and conditions of gorm", Pkgs: append(gorm[:2:2], "gorm.io/gorm", "gorm.io/gorm/clause"), Run: one(verifyGormDeps)},
	)
	esql := []string{"vspec/espec", modPath + "entmq", "entgo.io/ent/dialect/sql", "entgo.io/ent/dialect/sql/sqlgraph"}
	us = append(us,
		Unit{Name: "MiniQLToEntSQLBuilder.Query", Pkgs: esql, Run: one(verifySQL)},
		Unit{Name: "bound values", Pkgs: esql, Run: one(verifyBound)},
		Unit{Name: "builder of ent", Pkgs: esql, Run: one(verifyEntBuilder)},
	)
	var names []string
	for n := range cs {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return cs[names[i]].rank > cs[names[j]].rank })
	for _, n := range names {
		us = append(us, Unit{Name: "rule " + n, Run: parser(func(p *Parser) *Exec {
			for _, i := range p.byFn {
				if p.names[i] == n {
					return p.verifyRule(i, p.ruleFn(i))
				}
			}
			panic(missing{"rule " + n})
		})})
	}
	return us
}
