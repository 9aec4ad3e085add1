package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a proof obligation: pc implies goal.
type Obligation struct {
	Unit  string
	Name  string
	PC    []*Term
	Goal  *Term
	Focus map[string]bool // specification functions to unfold first
	Ind   *induction

	Trivial bool
	Status  string // proved, failed, unknown
	Solver  string
	Millis  int64
	Model   string
	Detail  string
}

// Outcome is one way in which a call can end.
type Outcome struct {
	st  *State
	res []Value
}

// Handler gives the meaning of a call.
type Handler func(x *Exec, st *State, args []Value, site *callSite) []Outcome

type callSite struct {
	fn    *ssa.Function // callee, if known
	sig   *types.Signature
	instr ssa.Instruction
	name  string
}

// Exec is a symbolic executor for one unit.
type Exec struct {
	w        *World
	spec     bool // executing specification functions
	unit     string
	obls     []*Obligation
	dry      int
	stack    []*ssa.Function
	lookup   func(x *Exec, fn *ssa.Function, args []Value) Handler // contracts
	opaque   func(x *Exec, st *State, f Value, args []Value, site *callSite) []Outcome
	loops    []loopRule
	muted    map[int]bool // cells that are modelled as arbitrary, but for inText
	parts    *maxParts    // the fields of such a cell that were just set
	focus    map[string]bool
	names    map[string]int
	steps    int
	maxSteps int
	feasible func(st *State) bool
	frames   []liveFrame
	roots    []Value
	lastLive map[ssa.Value]bool

	funcs      map[string]bool // functions that were executed
	uses       map[string]bool // contracts of dependencies that were used
	entryPos   *Term           // position at the start of the rule under check
	loopNotes  []string
	reach      []reachPoint
	parser     *Parser
	pcells     map[string]int
	peg, tree  PtrVal
	hook       *execHook
	ruleC      *ruleContract
	wholeParse bool

	role     *role
	gorm     *gormRun
	sql      *sqlRun
	cells    map[string]int // fields of structures of dependencies that change
	onWrite  func(x *Exec, st *State, t *Term)
	recs     map[*ssa.Function]bool // functions that have the role
	runs     []*roleRun
	roleDone map[string]*roleRun
	ghosts   map[string]int // cells with ghost state
}

// reachPoint is an outcome whose assumptions must not contradict each other.
type reachPoint struct {
	label string
	pc    []*Term
}

// reached records an outcome. Of the outcomes with the same label one at least
// has to be possible, or the obligations say nothing.
func (x *Exec) reached(st *State, label string) {
	x.reach = append(x.reach, reachPoint{label, append([]*Term{}, st.pc...)})
}

// reachObligations checks the recorded outcomes.
func (x *Exec) reachObligations() []*Obligation {
	var out []*Obligation
	by := map[string]*Obligation{}
	for _, r := range x.reach {
		o := by[r.label]
		if o == nil {
			o = &Obligation{Unit: x.unit, Name: "not vacuous: " + r.label, Goal: False, Status: "failed", Detail: "the assumptions contradict each other"}
			by[r.label] = o
			out = append(out, o)
		}
		if o.Status == "failed" {
			o.PC = r.pc
			if res := refute(r.pc, 1, false); !res.ok {
				o.Status, o.Solver = "proved", "reachable"
			}
		}
	}
	return out
}

// liveFrame is a caller whose live registers may refer to heap objects.
type liveFrame struct {
	regs map[ssa.Value]Value
	live map[ssa.Value]bool
}

var liveAfterCache = map[ssa.Instruction]map[ssa.Value]bool{}

// liveAfter is the set of registers that are used after an instruction.
func liveAfter(ins ssa.Instruction) map[ssa.Value]bool {
	if l, ok := liveAfterCache[ins]; ok {
		return l
	}
	b := ins.Block()
	in := infoOf(b.Parent())
	l := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range in.live[s] {
			l[v] = true
		}
		for i, p := range s.Preds {
			if p != b {
				continue
			}
			for _, q := range s.Instrs {
				ph, ok := q.(*ssa.Phi)
				if !ok {
					break
				}
				delete(l, ph)
				l[ph.Edges[i]] = true
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= 0 && b.Instrs[i] != ins; i-- {
		q := b.Instrs[i]
		if v, ok := q.(ssa.Value); ok {
			delete(l, v)
		}
		for _, op := range q.Operands(nil) {
			if *op != nil {
				l[*op] = true
			}
		}
	}
	if v, ok := ins.(ssa.Value); ok {
		delete(l, v)
	}
	liveAfterCache[ins] = l
	return l
}

type path struct {
	st   *State
	regs map[ssa.Value]Value
}

func (p *path) clone() *path { return &path{p.st.clone(), cp(p.regs)} }

type frame struct {
	fn   *ssa.Function
	bind []Value
	mark int
	info *fnInfo
	args []Value
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	in := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	fnInfos[fn] = in
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		in.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				if in.rpo[h] <= in.rpo[b] {
					unsup("irreducible loop in %s", fn)
				}
				continue
			}
			body := in.loops[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				in.loops[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if body[c] {
					continue
				}
				body[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	// liveness of registers at block entry
	for _, b := range fn.Blocks {
		in.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range post {
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in.live[s] {
					l[v] = true
				}
				// phi operands along this edge
				for i, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						delete(l, ph)
						l[ph.Edges[i]] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if _, ok := ins.(*ssa.Phi); ok {
					continue // phis count as live at entry, they are assigned on the edge
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(l, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						l[*op] = true
					}
				}
			}
			for v := range l {
				if !in.live[b][v] {
					in.live[b][v] = true
					changed = true
				}
			}
		}
	}
	return in
}

type item struct {
	p    *path
	pred *ssa.BasicBlock
}

type edge struct {
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
	p    *path
}

type region struct {
	fr     *frame
	body   map[*ssa.BasicBlock]bool // nil: everything
	header *ssa.BasicBlock
	queue  map[*ssa.BasicBlock][]item
	rets   []Outcome
	exits  []edge
	backs  []edge
}

// call runs a function with known body.
func (x *Exec) call(st *State, fn *ssa.Function, bind, args []Value) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("no source for %s", fn)
	}
	if x.recs[fn] && !x.spec {
		return x.roleCall(st, fn, bind, args)
	}
	depth := 0
	for _, f := range x.stack {
		if f == fn {
			depth++
		}
	}
	switch {
	case depth == 0:
	case x.role == nil || x.spec:
		unsup("recursive call of %s without a contract", shortName(fn))
	case fn.Synthetic == "" && nodeParam(fn):
		panic(restart{fn})
	case depth > 8: // not if the recursion is through a function with a role
		unsup("recursive function %s without a node", shortName(fn))
	}
	return x.callBody(st, fn, bind, args)
}

func (x *Exec) callBody(st *State, fn *ssa.Function, bind, args []Value) []Outcome {
	if len(x.stack) > 60 {
		unsup("call depth")
	}
	if !x.spec {
		if x.funcs == nil {
			x.funcs = map[string]bool{}
		}
		x.funcs[shortName(fn)] = true
	}
	stack := x.stack
	x.stack = append(x.stack, fn)
	defer func() { x.stack = stack }()
	fr := &frame{fn: fn, bind: bind, mark: objN + 1, info: infoOf(fn), args: args}
	r := &region{fr: fr, queue: map[*ssa.BasicBlock][]item{}}
	p := &path{st: st.clone(), regs: map[ssa.Value]Value{}}
	for i, pr := range fn.Params {
		p.regs[pr] = args[i]
	}
	r.queue[fn.Blocks[0]] = []item{{p, nil}}
	x.drain(r)
	return x.mergeOutcomes(r.rets, fr.mark)
}

func (x *Exec) mergeOutcomes(outs []Outcome, mark int) []Outcome {
	if x.spec || len(outs) < 2 {
		return outs
	}
	var res []Outcome
	idx := map[string]int{}
	for _, o := range outs {
		k := &keyer{st: o.st, mark: mark, ren: map[int]int{}}
		key := keys(k, o.res) + "|" + heapKey(k, o.st) + x.stepsKey(k, o.st)
		if i, ok := idx[key]; ok {
			res[i].st = mergePC(res[i].st, o.st)
			continue
		}
		idx[key] = len(res)
		res = append(res, o)
	}
	return res
}

// heapKey identifies the heap up to renaming of objects allocated since mark.
func heapKey(k *keyer, st *State) string {
	var b strings.Builder
	var ids []int
	for id := range st.heap {
		if id < k.mark {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		b.WriteString(st.heap[id].Val.key(k))
		b.WriteByte('\n')
	}
	for i := 0; i < len(k.todo); i++ {
		b.WriteString(st.heap[k.todo[i]].Val.key(k))
		b.WriteByte('\n')
	}
	return b.String()
}

// mergePC joins two states that differ in their path conditions only.
func mergePC(a, b *State) *State {
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	d := Or(And(a.pc[n:]...), And(b.pc[n:]...))
	r := a.clone()
	r.pc = append([]*Term{}, a.pc[:n]...)
	r.known = map[int]bool{}
	r.eqc = map[int]*Term{}
	for _, c := range r.pc {
		r.learn(c)
	}
	for _, c := range conj(d) {
		r.pc = append(r.pc, c)
		r.learn(c)
	}
	return r
}

func (x *Exec) drain(r *region) {
	for {
		var b *ssa.BasicBlock
		for c := range r.queue {
			if b == nil || r.fr.info.rpo[c] < r.fr.info.rpo[b] {
				b = c
			}
		}
		if b == nil {
			return
		}
		items := r.queue[b]
		delete(r.queue, b)
		items = x.mergeItems(r.fr, b, items)
		for _, it := range items {
			if body, ok := r.fr.info.loops[b]; ok && b != r.header {
				if x.hook != nil && b == x.parser.head {
					x.catchExecute(r, b, body, it)
					continue
				}
				x.loop(r, b, body, it)
				continue
			}
			x.block(r, b, 0, it.p)
		}
	}
}

func (x *Exec) mergeItems(fr *frame, b *ssa.BasicBlock, items []item) []item {
	if x.spec || len(items) < 2 {
		return items
	}
	live := fr.info.live[b]
	var lv []ssa.Value
	for v := range live {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global, *ssa.FreeVar, *ssa.Parameter:
			continue
		}
		lv = append(lv, v)
	}
	sort.Slice(lv, func(i, j int) bool { return lv[i].Name() < lv[j].Name() })
	var out []item
	idx := map[string]int{}
	for _, it := range items {
		k := &keyer{st: it.p.st, mark: fr.mark, ren: map[int]int{}}
		var vs []Value
		for _, v := range lv {
			vs = append(vs, it.p.regs[v])
		}
		key := keys(k, vs) + "|" + heapKey(k, it.p.st) + x.stepsKey(k, it.p.st)
		if i, ok := idx[key]; ok {
			out[i].p = &path{mergePC(out[i].p.st, it.p.st), out[i].p.regs}
			continue
		}
		idx[key] = len(out)
		out = append(out, it)
	}
	return out
}

// goTo follows a control flow edge: it assigns the phis of the target.
func (x *Exec) goTo(r *region, from, to *ssa.BasicBlock, p *path) {
	x.assignPhis(r.fr, from, to, p)
	if r.body != nil {
		if to == r.header {
			r.backs = append(r.backs, edge{to, from, p})
			return
		}
		if !r.body[to] {
			r.exits = append(r.exits, edge{to, from, p})
			return
		}
	}
	r.queue[to] = append(r.queue[to], item{p, from})
}

func (x *Exec) assignPhis(fr *frame, from, to *ssa.BasicBlock, p *path) {
	pi := -1
	for i, q := range to.Preds {
		if q == from {
			pi = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(fr, p, ph.Edges[pi]))
	}
	for i, ph := range phis {
		p.regs[ph] = vals[i]
	}
}

func (x *Exec) block(r *region, b *ssa.BasicBlock, idx int, p *path) {
	fr := r.fr
	for ; idx < len(b.Instrs); idx++ {
		x.steps++
		if x.maxSteps > 0 && x.steps > x.maxSteps {
			unsup("step budget exhausted in %s", x.unit)
		}
		switch ins := b.Instrs[idx].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := p.st.simp(x.term(x.val(fr, p, ins.Cond)))
			if c == True {
				x.goTo(r, b, b.Succs[0], p)
				return
			}
			if c == False {
				x.goTo(r, b, b.Succs[1], p)
				return
			}
			q := p.clone()
			if p.st.assume(c) && x.feas(p.st) {
				x.goTo(r, b, b.Succs[0], p)
			}
			if q.st.assume(Not(c)) && x.feas(q.st) {
				x.goTo(r, b, b.Succs[1], q)
			}
			return
		case *ssa.Jump:
			x.goTo(r, b, b.Succs[0], p)
			return
		case *ssa.Return:
			var res []Value
			for _, v := range ins.Results {
				res = append(res, x.val(fr, p, v))
			}
			r.rets = append(r.rets, Outcome{p.st, res})
			return
		case *ssa.Panic:
			x.oblige(p.st, False, "no-panic: explicit panic in "+shortName(fr.fn))
			return
		case *ssa.Call:
			outs := x.doCall(fr, p, &ins.Call, ins)
			for i, o := range outs {
				q := p
				if i < len(outs)-1 {
					q = &path{o.st, cp(p.regs)}
				}
				q.st = o.st
				switch len(o.res) {
				case 0:
				case 1:
					q.regs[ins] = o.res[0]
				default:
					q.regs[ins] = TupleVal{o.res}
				}
				if i < len(outs)-1 {
					x.block(r, b, idx+1, q)
				}
			}
			if len(outs) == 0 {
				return
			}
		case *ssa.Store:
			x.store(p.st, x.val(fr, p, ins.Addr), x.val(fr, p, ins.Val))
		case *ssa.MapUpdate:
			x.mapUpdate(p.st, x.val(fr, p, ins.Map), x.val(fr, p, ins.Key), x.val(fr, p, ins.Value))
		case *ssa.RunDefers:
		case ssa.Value:
			p.regs[ins] = x.eval(fr, p, ins)
		default:
			unsup("instruction %T in %s", ins, shortName(fr.fn))
		}
	}
}

func (x *Exec) feas(st *State) bool {
	if x.feasible == nil || x.spec {
		return true
	}
	return x.feasible(st)
}

// oblige records an obligation and assumes it from here on.
func (x *Exec) oblige(st *State, goal *Term, name string) {
	if x.spec {
		return
	}
	g := st.simp(goal)
	if x.dry == 0 {
		if x.names == nil {
			x.names = map[string]int{}
		}
		o := &Obligation{Unit: x.unit, Name: name, PC: st.pc[:len(st.pc):len(st.pc)], Goal: g, Focus: x.focus}
		if g == True {
			o.Trivial = true
			o.Status = "proved"
			o.Solver = "simplifier"
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

func (x *Exec) term(v Value) *Term {
	if t, ok := v.(TermVal); ok {
		return t.T
	}
	unsup("value %T where a term is needed", v)
	return nil
}

func shortName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath, "")
}

func (x *Exec) val(fr *frame, p *path, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return FuncVal{Fn: v}
	case *ssa.Global:
		return x.w.global(p.st, v)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.bind[i]
			}
		}
	}
	if r, ok := p.regs[v]; ok {
		return r
	}
	unsup("no value for %s in %s", v.Name(), shortName(fr.fn))
	return nil
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tv(Bool(constant.BoolVal(c.Value)))
	case constant.String:
		return tv(Str(constant.StringVal(c.Value)))
	case constant.Int:
		if sortOf(c.Type()) == SF64 {
			break
		}
		i, ok := constant.Int64Val(c.Value)
		if !ok {
			unsup("constant %v", c)
		}
		return tv(Int(i))
	}
	if sortOf(c.Type()) == SF64 {
		if constant.Sign(c.Value) == 0 {
			return tv(UF("f64_0", SF64))
		}
		return tv(UF("f64_"+c.Value.ExactString(), SF64))
	}
	unsup("constant %v", c)
	return nil
}

func (x *Exec) eval(fr *frame, p *path, v ssa.Value) Value {
	st := p.st
	switch v := v.(type) {
	case *ssa.Alloc:
		return PtrVal{Obj: st.alloc(v.Type().(*types.Pointer).Elem(), zero(v.Type().(*types.Pointer).Elem()))}
	case *ssa.BinOp:
		return x.binop(st, v.Op, x.val(fr, p, v.X), x.val(fr, p, v.Y), v.X.Type())
	case *ssa.UnOp:
		a := x.val(fr, p, v.X)
		switch v.Op {
		case token.MUL:
			return x.load(st, a, v.Type())
		case token.NOT:
			return tv(Not(x.term(a)))
		case token.SUB:
			return tv(Sub(Int(0), x.term(a)))
		}
		unsup("unary %v", v.Op)
	case *ssa.ChangeType:
		a := x.val(fr, p, v.X)
		if s, ok := a.(StructVal); ok {
			return StructVal{v.Type(), s.Fields}
		}
		return a
	case *ssa.ChangeInterface:
		return x.val(fr, p, v.X)
	case *ssa.Convert:
		return x.convert(st, x.val(fr, p, v.X), v.X.Type(), v.Type())
	case *ssa.MakeInterface:
		a := x.val(fr, p, v.X)
		return IfaceVal{Typ: v.X.Type(), V: a}
	case *ssa.MakeClosure:
		f := FuncVal{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.Bind = append(f.Bind, x.val(fr, p, b))
		}
		return f
	case *ssa.Extract:
		return x.val(fr, p, v.Tuple).(TupleVal).Vs[v.Index]
	case *ssa.Field:
		return x.field(st, x.val(fr, p, v.X), v.Field)
	case *ssa.FieldAddr:
		return x.fieldAddr(st, x.val(fr, p, v.X), v.Field, v)
	case *ssa.IndexAddr:
		return x.indexAddr(st, x.val(fr, p, v.X), x.term(x.val(fr, p, v.Index)), fr)
	case *ssa.Index:
		a := x.val(fr, p, v.X)
		i := x.term(x.val(fr, p, v.Index))
		if s, ok := a.(SeqVal); ok {
			x.oblige(st, And(Le(Int(0), i), Lt(i, s.len())), "no-panic: index in range in "+shortName(fr.fn))
			return x.seqGet(st, s, i)
		}
		if t, ok := a.(TermVal); ok && t.T.Sort == SStr {
			x.oblige(st, And(Le(Int(0), i), Lt(i, StrLen(t.T))), "no-panic: index in range in "+shortName(fr.fn))
			if t.T.Op == "str" && i.Op == "int" {
				return tv(Int(int64(t.T.Name[i.I])))
			}
			return tv(UF("byteat", SInt, t.T, i))
		}
		unsup("index of %T", a)
	case *ssa.Lookup:
		return x.lookupMap(st, x.val(fr, p, v.X), x.val(fr, p, v.Index), v)
	case *ssa.MakeMap:
		return MapVal{st.alloc(v.Type(), newMapObj(v.Type()))}
	case *ssa.MakeSlice:
		n := x.term(x.val(fr, p, v.Len))
		elem := v.Type().Underlying().(*types.Slice).Elem()
		x.oblige(st, Le(Int(0), n), "no-panic: make with a negative length in "+shortName(fr.fn))
		if v.Cap != v.Len {
			x.oblige(st, Le(n, x.term(x.val(fr, p, v.Cap))), "no-panic: make with a capacity below the length in "+shortName(fr.fn))
		}
		c := SeqVal{Elem: elem}
		if n.Op == "int" && n.I <= 64 {
			for i := int64(0); i < n.I; i++ {
				c.Segs = append(c.Segs, seg{Item: zero(elem)})
			}
		} else {
			es := sortOf(elem)
			if es == "" {
				unsup("make of %v", v.Type())
			}
			b := Fresh("make", seqOf(es))
			st.assume(Eq(SeqLen(b), n))
			c.Segs = []seg{{Block: b}}
			o := st.alloc(types.NewSlice(elem), c)
			return SliceVal{Obj: o, Off: Int(0), Len: n, Elem: elem}
		}
		return SliceVal{Obj: st.alloc(types.NewSlice(elem), c), Off: Int(0), Len: n, Elem: elem}
	case *ssa.Slice:
		return x.slice(fr, p, v)
	case *ssa.TypeAssert:
		return x.typeAssert(st, x.val(fr, p, v.X), v)
	}
	unsup("instruction %T in %s", v, shortName(fr.fn))
	return nil
}

func (x *Exec) isNil(st *State, v Value) *Term {
	switch v := v.(type) {
	case TermVal:
		switch v.T.Sort {
		case SNode:
			return Eq(v.T, nilNode())
		case SAny:
			return Eq(v.T, Cons("any_nil", SAny))
		case "Expr":
			return Eq(v.T, Cons("e_nil", "Expr"))
		}
	case PtrVal, TermPtr:
		return False
	case OpaquePtr:
		return Eq(v.T, UF("nilptr", "Ptr"))
	case IfaceVal:
		return Bool(v.Typ == nil)
	case OpaqueIface:
		return False
	case MaybeErr:
		return Not(v.T)
	case FuncVal:
		return Bool(v.Fn == nil)
	case OpaqueFunc:
		return Eq(v.T, UF("nilptr", "Ptr"))
	case MapVal:
		return Bool(v.Obj == 0)
	case SliceVal:
		if isNilSlice(v) {
			return True
		}
		if v.Obj != 0 {
			return False
		}
	}
	unsup("nil comparison of %T", v)
	return nil
}

func isNilConst(v Value) bool {
	switch v := v.(type) {
	case TermVal:
		return v.T.Op == "cons" && (v.T.Name == "nil_Node" || v.T.Name == "any_nil" || v.T.Name == "e_nil")
	case OpaquePtr:
		return v.T == UF("nilptr", "Ptr")
	case IfaceVal:
		return v.Typ == nil
	case FuncVal:
		return v.Fn == nil
	case MapVal:
		return v.Obj == 0
	case SliceVal:
		return isNilSlice(v)
	}
	return false
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, typ types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		var t *Term
		ta, aok := a.(TermVal)
		tb, bok := b.(TermVal)
		switch {
		case aok && bok:
			t = Eq(ta.T, tb.T)
			if ta.T.Sort == SNode && !isNilConst(a) && !isNilConst(b) && !x.spec {
				unsup("comparison of node pointers")
			}
		case isNilConst(b):
			t = x.isNil(st, a)
		case isNilConst(a):
			t = x.isNil(st, b)
		default:
			if k := (&keyer{st: st, mark: 1 << 60}); a.key(k) == b.key(k) {
				if _, ok := a.(PtrVal); ok {
					t = True
					break
				}
			}
			if pa, ok := a.(PtrVal); ok {
				if pb, ok := b.(PtrVal); ok && pa.Obj != pb.Obj {
					t = False
					break
				}
			}
			unsup("comparison of %T and %T", a, b)
		}
		if op == token.NEQ {
			t = Not(t)
		}
		return tv(t)
	}
	p, q := x.term(a), x.term(b)
	if p.Sort == SF64 {
		unsup("floating point arithmetic")
	}
	if p.Sort == SStr {
		switch op {
		case token.ADD:
			return tv(Concat(p, q))
		}
		if p.Op == "str" && q.Op == "str" {
			switch op {
			case token.LSS:
				return tv(Bool(p.Name < q.Name))
			case token.GTR:
				return tv(Bool(p.Name > q.Name))
			case token.LEQ:
				return tv(Bool(p.Name <= q.Name))
			case token.GEQ:
				return tv(Bool(p.Name >= q.Name))
			}
		}
		unsup("string operation %v", op)
	}
	switch op {
	case token.ADD:
		return tv(Add(p, q))
	case token.SUB:
		return tv(Sub(p, q))
	case token.MUL:
		return tv(Mul(p, q))
	case token.LSS:
		return tv(Lt(p, q))
	case token.LEQ:
		return tv(Le(p, q))
	case token.GTR:
		return tv(Gt(p, q))
	case token.GEQ:
		return tv(Ge(p, q))
	}
	if p.Op == "int" && q.Op == "int" {
		switch op {
		case token.REM:
			return tv(Int(p.I % q.I))
		case token.QUO:
			return tv(Int(p.I / q.I))
		case token.AND:
			return tv(Int(p.I & q.I))
		case token.OR:
			return tv(Int(p.I | q.I))
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.REM, token.QUO, token.AND_NOT:
		return tv(UF("op"+op.String(), SInt, p, q))
	}
	unsup("operation %v", op)
	return nil
}

func (x *Exec) field(st *State, v Value, f int) Value {
	switch v := v.(type) {
	case StructVal:
		return v.Fields[f]
	case TermVal:
		if r, ok := sortOfRec[v.T.Sort]; ok {
			return fromTerm(r.sel(f, v.T), r.fields[f].typ)
		}
	}
	unsup("field of %T", v)
	return nil
}

func (x *Exec) fieldAddr(st *State, v Value, f int, site *ssa.FieldAddr) Value {
	switch v := v.(type) {
	case PtrVal:
		return PtrVal{v.Obj, append(v.Path[:len(v.Path):len(v.Path)], step{Field: f})}
	case TermVal:
		if v.T.Sort == SNode {
			x.oblige(st, Not(Eq(v.T, nilNode())), "no-panic: nil node in "+shortName(site.Parent()))
			return TermPtr{v.T, f}
		}
	case TermPtr:
		unsup("nested record address")
	case OpaquePtr:
		x.oblige(st, Not(Eq(v.T, UF("nilptr", "Ptr"))), "no-panic: nil pointer in "+shortName(site.Parent()))
		str := site.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return x.w.opaqueField(x, st, v, typeName(site.X.Type().Underlying().(*types.Pointer).Elem()), str.Field(f))
	}
	unsup("field address of %T in %s", v, shortName(site.Parent()))
	return nil
}

// seqGet reads element i.
func (x *Exec) seqGet(st *State, s SeqVal, i *Term) Value {
	if typeName(s.Elem) == "error" {
		return OpaqueIface{"error"} // errors are not told apart
	}
	if i.Op == "ite" && st.simp(i.Args[0]) == i.Args[0] {
		a, ok1 := x.seqGet(st, s, i.Args[1]).(TermVal)
		b, ok2 := x.seqGet(st, s, i.Args[2]).(TermVal)
		if ok1 && ok2 {
			return tv(Ite(i.Args[0], a.T, b.T))
		}
	}
	if len(s.Segs) == 2 && s.Segs[0].Item == nil && s.Segs[1].Item != nil {
		if t, ok := s.Segs[1].Item.(TermVal); ok && t.T == Int(endRune) {
			return tv(At(s.Segs[0].Block, i))
		}
	}
	off := Int(0)
	for _, g := range s.Segs {
		d := st.norm(Sub(i, off))
		if g.Item != nil {
			if d == Int(0) || st.simp(Eq(d, Int(0))) == True {
				return g.Item
			}
			off = Add(off, Int(1))
			continue
		}
		if g.Block.Op == "uf" && g.Block.Name == "runes" && len(s.Segs) == 1 {
			return tv(At(g.Block, i))
		}
		if len(s.Segs) == 1 || st.simp(And(Le(Int(0), d), Lt(d, SeqLen(g.Block)))) == True {
			return fromTerm(SeqNth(g.Block, d), s.Elem)
		}
		off = Add(off, SeqLen(g.Block))
	}
	if sortOf(s.Elem) != "" {
		return fromTerm(SeqNth(st.segsTerm(s.Segs, s.Elem), i), s.Elem)
	}
	unsup("element %v of %v", i, s)
	return nil
}

func (x *Exec) seqSet(st *State, s SeqVal, i *Term, v Value) SeqVal {
	off := Int(0)
	for n, g := range s.Segs {
		d := st.norm(Sub(i, off))
		if g.Item != nil {
			if d == Int(0) {
				segs := append([]seg{}, s.Segs...)
				segs[n] = seg{Item: v}
				return SeqVal{s.Elem, segs}
			}
			off = Add(off, Int(1))
			continue
		}
		off = Add(off, SeqLen(g.Block))
	}
	if len(s.Segs) == 1 && s.Segs[0].Item == nil && sortOf(s.Elem) != "" {
		b := s.Segs[0].Block
		return SeqVal{s.Elem, []seg{{Block: SeqSub(b, Int(0), i)}, {Item: v}, {Block: SeqSub(b, Add(i, Int(1)), SeqLen(b))}}}
	}
	unsup("assignment to element %v", i)
	return s
}

func (x *Exec) getPath(st *State, v Value, path []step) Value {
	for _, s := range path {
		if s.Idx != nil {
			q, ok := v.(SeqVal)
			if !ok {
				unsup("element of %T", v)
			}
			v = x.seqGet(st, q, s.Idx)
			continue
		}
		v = x.field(st, v, s.Field)
	}
	return v
}

func (x *Exec) setPath(st *State, v Value, path []step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.Idx != nil {
		q, ok := v.(SeqVal)
		if !ok {
			unsup("element of %T", v)
		}
		if len(path) == 1 {
			return x.seqSet(st, q, s.Idx, nv)
		}
		return x.seqSet(st, q, s.Idx, x.setPath(st, x.seqGet(st, q, s.Idx), path[1:], nv))
	}
	if t, ok := v.(TermVal); ok {
		if r, ok := sortOfRec[t.T.Sort]; ok { // expand a record that is stored as a term
			sv := StructVal{Typ: r.typ}
			for i := range r.fields {
				sv.Fields = append(sv.Fields, fromTerm(r.sel(i, t.T), r.fields[i].typ))
			}
			v = sv
		}
	}
	sv, ok := v.(StructVal)
	if !ok {
		unsup("field of %T", v)
	}
	fs := append([]Value{}, sv.Fields...)
	fs[s.Field] = x.setPath(st, fs[s.Field], path[1:], nv)
	return StructVal{sv.Typ, fs}
}

func (x *Exec) load(st *State, a Value, typ types.Type) Value {
	switch a := a.(type) {
	case PtrVal:
		if x.muted[a.Obj] {
			v := x.arbitrary(st, typ, "muted")
			if x.wholeParse && len(a.Path) == 0 {
				st.assume(x.inText(v))
			}
			return v
		}
		o := st.heap[a.Obj]
		if o == nil {
			unsup("dangling pointer")
		}
		return x.getPath(st, o.Val, a.Path)
	case TermPtr:
		if a.F < 0 {
			return tv(a.T)
		}
		r := sortOfRec[a.T.Sort]
		return fromTerm(r.sel(a.F, a.T), r.fields[a.F].typ)
	case TermVal:
		if a.T.Sort == SNode {
			x.oblige(st, Not(Eq(a.T, nilNode())), "no-panic: nil node")
			return a
		}
	case elemPtr:
		return x.sliceGet(st, a.s, a.i)
	case constPtr:
		return a.v
	}
	unsup("load through %T", a)
	return nil
}

func (x *Exec) store(st *State, a, v Value) {
	switch a := a.(type) {
	case PtrVal:
		if x.muted[a.Obj] {
			x.setMax(st, a.Path, v)
			return
		}
		o := st.heap[a.Obj]
		st.heap[a.Obj] = &Obj{o.Typ, x.setPath(st, o.Val, a.Path, v)}
		return
	case elemPtr:
		if a.s.Obj != 0 {
			o := st.heap[a.s.Obj]
			st.heap[a.s.Obj] = &Obj{o.Typ, x.seqSet(st, o.Val.(SeqVal), Add(a.s.Off, a.i), v)}
			return
		}
	}
	unsup("store through %T", a)
}

// elemPtr is the address of a slice element.
type elemPtr struct {
	s SliceVal
	i *Term
}

// constPtr points to a value that cannot be assigned.
type constPtr struct{ v Value }

func (v elemPtr) key(k *keyer) string  { return "e" + v.s.key(k) + tkey(v.i) }
func (v constPtr) key(k *keyer) string { return "c" + v.v.key(k) }

func (x *Exec) sliceGet(st *State, s SliceVal, i *Term) Value {
	if s.Obj == 0 {
		v := fromTerm(SeqNth(s.T, st.norm(i)), s.Elem)
		if p, ok := v.(OpaquePtr); ok { // no element of a list of a dependency is nil
			st.assume(Not(x.isNil(st, p)))
			x.assumeField(st, s.T, p.T)
		}
		return v
	}
	return x.seqGet(st, st.heap[s.Obj].Val.(SeqVal), Add(s.Off, i))
}

func (x *Exec) indexAddr(st *State, v Value, i *Term, fr *frame) Value {
	i = st.norm(i)
	switch v := v.(type) {
	case SliceVal:
		x.oblige(st, And(Le(Int(0), i), Lt(i, v.Len)), "no-panic: index in range in "+shortName(fr.fn))
		if isNilSlice(v) {
			return elemPtr{SliceVal{T: SeqEmpty(seqOf(SInt)), Elem: v.Elem}, i}
		}
		return elemPtr{v, i}
	case PtrVal: // pointer to array
		a, ok := x.getPath(st, st.heap[v.Obj].Val, v.Path).(SeqVal)
		if !ok {
			break
		}
		x.oblige(st, And(Le(Int(0), i), Lt(i, a.len())), "no-panic: index in range in "+shortName(fr.fn))
		return PtrVal{v.Obj, append(v.Path[:len(v.Path):len(v.Path)], step{Idx: i})}
	case constPtr:
		if a, ok := v.v.(SeqVal); ok {
			x.oblige(st, And(Le(Int(0), i), Lt(i, a.len())), "no-panic: index in range in "+shortName(fr.fn))
			return constPtr{x.seqGet(st, a, i)}
		}
	}
	unsup("element address of %T", v)
	return nil
}

func (x *Exec) slice(fr *frame, p *path, v *ssa.Slice) Value {
	st := p.st
	a := x.val(fr, p, v.X)
	get := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return st.norm(x.term(x.val(fr, p, e)))
	}
	where := "no-panic: slice bounds in " + shortName(fr.fn)
	switch a := a.(type) {
	case SliceVal:
		lo, hi := get(v.Low, Int(0)), get(v.High, a.Len)
		if v.Max != nil {
			unsup("three index slice")
		}
		// slicing beyond the length (within the capacity) is not modelled, it has to stay within
		x.oblige(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, a.Len)), where)
		if isNilSlice(a) {
			return a
		}
		if a.Obj == 0 {
			t := SeqSub(a.T, lo, hi)
			return SliceVal{T: t, Off: Int(0), Len: Sub(hi, lo), Elem: a.Elem}
		}
		return SliceVal{Obj: a.Obj, Off: Add(a.Off, lo), Len: Sub(hi, lo), Elem: a.Elem}
	case PtrVal:
		if len(a.Path) != 0 {
			unsup("slice of an array in a struct")
		}
		c, ok := st.heap[a.Obj].Val.(SeqVal)
		if !ok {
			break
		}
		lo, hi := get(v.Low, Int(0)), get(v.High, c.len())
		x.oblige(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, c.len())), where)
		return SliceVal{Obj: a.Obj, Off: lo, Len: Sub(hi, lo), Elem: c.Elem}
	case tokSlice:
		hi := get(v.High, a.ti)
		x.oblige(st, And(Bool(v.Low == nil && v.Max == nil), Eq(hi, a.ti)), "the token list ends at the token index")
		return tokSlice{a.ti, a.ti}
	case TermVal:
		if a.T.Sort == SStr {
			lo, hi := get(v.Low, Int(0)), get(v.High, StrLen(a.T))
			x.oblige(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(a.T))), where)
			if a.T.Op == "str" && lo.Op == "int" && hi.Op == "int" && lo.I <= hi.I && hi.I <= int64(len(a.T.Name)) {
				return tv(Str(a.T.Name[lo.I:hi.I]))
			}
			return tv(mk("str.substr", "", 0, SStr, a.T, lo, Sub(hi, lo)))
		}
	}
	unsup("slice of %T", a)
	return nil
}

// intRange is the range of an integer type; a bound that int64 cannot hold is not
// checked.
func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return math.MinInt64, math.MaxInt64, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	}
	return 0, 0, false
}

// narrow converts between integer types: a value that does not fit becomes an
// unknown one.
func (x *Exec) narrow(st *State, v Value, from, to types.Type) Value {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(to)
	if !ok1 || !ok2 {
		unsup("conversion of %v to %v", from, to)
	}
	if tl <= fl && fh <= th {
		return v
	}
	t := x.term(v)
	fits := True
	if fl < tl {
		fits = And(fits, Le(Int(tl), t))
	}
	if th < fh {
		fits = And(fits, Le(t, Int(th)))
	}
	return tv(st.simp(Ite(fits, t, UF("wrap_"+typeName(to.Underlying()), SInt, t))))
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fs, ts := sortOf(from), sortOf(to)
	if r, ok := v.(reflVal); ok {
		return r
	}
	switch {
	case fs == SStr && ts == SStr:
		return v
	case fs == SInt && ts == SInt:
		return x.narrow(st, v, from, to)
	case fs == SStr && typeName(to) == "[]rune":
		t := x.term(v)
		if t.Op == "str" {
			var us []*Term
			for _, r := range t.Name {
				us = append(us, SeqUnit(Int(int64(r))))
			}
			c := SeqCat(seqOf(SInt), us...)
			return SliceVal{T: c, Off: Int(0), Len: SeqLen(c), Elem: types.Typ[types.Rune]}
		}
		r := UF("runes", seqOf(SInt), t)
		return SliceVal{Obj: st.alloc(to, SeqVal{types.Typ[types.Rune], []seg{{Block: r}}}), Off: Int(0), Len: SeqLen(r), Elem: types.Typ[types.Rune]}
	case typeName(from) == "[]rune" && ts == SStr:
		s := v.(SliceVal)
		if s.Obj != 0 {
			c := st.heap[s.Obj].Val.(SeqVal)
			hi := Add(s.Off, s.Len)
			if len(c.Segs) > 0 && c.Segs[0].Item == nil {
				r := c.Segs[0].Block
				if len(c.Segs) == 1 {
					return tv(SubText(r, s.Off, hi))
				}
				in := st.simp(Le(hi, SeqLen(r)))
				if in == True || !x.spec && x.prove(st, in) {
					return tv(SubText(r, s.Off, hi))
				}
				return tv(Ite(in, SubText(r, s.Off, hi), UF("textx", SStr, r, s.Off, hi)))
			}
		} else if s.T != nil {
			if s.T.Op == "seq.sub" {
				return tv(SubText(s.T.Args[0], s.T.Args[1], s.T.Args[2]))
			}
			return tv(SubText(s.T, Int(0), SeqLen(s.T)))
		}
	case fs == SInt && ts == SStr:
		if t := x.term(v); t.Op == "int" {
			return tv(Str(string(rune(t.I))))
		}
	}
	unsup("conversion from %v to %v", from, to)
	return nil
}

const endRune = 1114112

// At is rune i of a text, endRune past its end.
func At(r, i *Term) *Term { return UF("at", SInt, r, i) }

// SubText is the string of the runes [lo,hi).
func SubText(r, lo, hi *Term) *Term {
	if lo == hi {
		return Str("")
	}
	return UF("text", SStr, r, lo, hi)
}

func (x *Exec) typeAssert(st *State, v Value, ins *ssa.TypeAssert) Value {
	var ok *Term
	var res Value
	to := ins.AssertedType
	_, toIface := to.Underlying().(*types.Interface)
	switch v := v.(type) {
	case IfaceVal:
		switch {
		case v.Typ == nil:
			ok, res = False, zero(to)
		case toIface:
			ok, res = Bool(types.Implements(v.Typ, to.Underlying().(*types.Interface))), v
		default:
			ok = Bool(types.Identical(v.Typ, to))
			res = v.V
		}
		if ok == False {
			res = zero(to)
		}
	case TermVal:
		switch v.T.Sort {
		case SAny:
			if toIface {
				if !plainAny[typeName(to)] {
					unsup("assertion of an arbitrary value to %v", to)
				}
				ok, res = False, zero(to) // the value of a node has no methods
				break
			}
			for c, f := range anyPayload {
				if sortOf(to) != f.sort || c == "any_node" && !isNodePtr(to) {
					continue
				}
				if b, isB := types.Unalias(to).(*types.Basic); isB && b.Kind() != types.Int && f.sort == SInt {
					continue
				}
				if _, named := types.Unalias(to).(*types.Named); named {
					continue
				}
				ok = Is(c, v.T)
				res = fromTerm(Sel(c, f.name, 0, f.sort, v.T), to)
			}
			if ok == nil { // no value of the domain has this type
				ok, res = False, zero(to)
			}
		case "Expr":
			if toIface {
				var cs []*Term
				for _, c := range exprCons {
					if c.isP {
						cs = append(cs, Is(c.cons, v.T))
					}
				}
				if typeName(to) != "entgo.io/ent/entql.P" {
					unsup("assertion to %v", to)
				}
				ok = Or(cs...)
				res = tv(Ite(ok, v.T, Cons("e_nil", "Expr")))
				if !ins.CommaOk {
					res = v
				}
			}
		}
	}
	if o, isOpaque := v.(OpaqueIface); isOpaque && toIface && ins.CommaOk && o.Name == "dialect" {
		ok, res = Fresh("implements", SBool), o // it is not used if it does not
	}
	if ok == nil {
		unsup("type assertion of %T to %v", v, to)
	}
	if !ins.CommaOk {
		x.oblige(st, ok, "no-panic: type assertion in "+shortName(ins.Parent()))
		return res
	}
	return TupleVal{[]Value{res, tv(ok)}}
}

func describe(v Value) string { return fmt.Sprintf("%T", v) }
