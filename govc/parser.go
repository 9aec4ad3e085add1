package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The generated parser records tokens while it matches and runs the semantic
// actions afterwards, in Execute, on the tokens that were kept. The verifier
// follows both at once: for every token index that can be current it keeps the
// state that the action loop of Execute has after the tokens before that index
// (pstate). Adding a token runs the body of that loop, symbolically, on the
// token; going back to an earlier token index takes back its effect.

// pstate is the state of the action loop.
type pstate struct {
	stack   []seg // of *Node
	marks   []seg // of int
	bad     *Term // an error was recorded
	carried []Value
}

func (ps *pstate) key(k *keyer) string {
	var b strings.Builder
	b.WriteString(SeqVal{Segs: ps.stack}.key(k) + "/" + SeqVal{Segs: ps.marks}.key(k) + tkey(ps.bad))
	b.WriteString(keys(k, ps.carried))
	return b.String()
}

type pentry struct {
	ti *Term
	ps *pstate
}

// ruleContract is the contract of a grammar rule.
type ruleContract struct {
	rule  string // name in the grammar
	spec  string // specification function
	loops []tailRule
	facts []tailRule
	rank  int // at one position a rule calls rules of a lower rank only
}

type tailRule struct {
	fn   string
	args []string // b pos top list bad, or a literal integer
}

// Parser knows the shape of the generated parser.
type Parser struct {
	w         *World
	contracts map[string]*ruleContract
	names     []string // rule name by index
	byFn      map[*ssa.Function]int
	cells     map[string]int // captured variables, by name
	alias     map[string]string
	peg       PtrVal
	tree      PtrVal
	base      *State // state after Init
	runes     *Term
	s         *Term
	execute   *ssa.Function
	carried   []*ssa.Phi
	index     *ssa.Phi
	head      *ssa.BasicBlock
	addTok    *ssa.Function
}

// tokSlice is the token list of a successful parse.
type tokSlice struct {
	ti   *Term // the token index that ends it
	trim *Term // nil before Trim
}

func (v tokSlice) key(k *keyer) string { return "tok" + tkey(v.ti) + tkey(v.trim) }

func (w *World) pegNamed(name string) *types.Named {
	t := w.pkgs["miniquery"].Type(name)
	if t == nil {
		unsup("the parser has no type %s", name)
	}
	return t.Type().(*types.Named)
}

func fieldIndex(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	// a field that is not exported may have another name
	if name == "marks" {
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), types.NewSlice(types.Typ[types.Int])) {
				return i
			}
		}
	}
	unsup("%v has no field %s", t, name)
	return -1
}

// newParser runs Init of the generated parser and finds its parts.
func newParser(w *World, contracts map[string]*ruleContract) *Parser {
	p := &Parser{w: w, contracts: contracts, byFn: map[*ssa.Function]int{}, cells: map[string]int{}}
	sc := w.pkgs["miniquery"].Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || typeName(c.Type()) != "miniquery.pegRule" {
			continue
		}
		i, _ := constant.Int64Val(c.Val())
		for int(i) >= len(p.names) {
			p.names = append(p.names, "")
		}
		p.names[i] = strings.TrimPrefix(n, "rule")
	}
	x := &Exec{w: w, unit: "miniquery.Init"}
	st := newState()
	pegT, treeT := w.pegNamed("MiniQueryPeg"), w.pegNamed("Tree")
	p.tree = PtrVal{Obj: st.alloc(treeT, zero(treeT))}
	pv := zero(pegT).(StructVal)
	p.s = Var("s", SStr)
	p.runes = UF("runes", seqOf(SInt), p.s)
	pv.Fields[fieldIndex(pegT, "Tree")] = p.tree
	pv.Fields[fieldIndex(pegT, "Buffer")] = tv(p.s)
	p.peg = PtrVal{Obj: st.alloc(pegT, pv)}
	init := w.method("miniquery", "MiniQueryPeg", "Init", true)
	outs := x.call(st, init, nil, []Value{p.peg, SliceVal{Elem: init.Params[1].Type().Underlying().(*types.Slice).Elem(), Off: Int(0), Len: Int(0)}})
	if len(outs) != 1 {
		unsup("Init has %d outcomes", len(outs))
	}
	p.base = outs[0].st
	p.base.pc = nil
	p.base.known = map[int]bool{}
	p.base.eqc = map[int]*Term{}
	p.execute = w.method("miniquery", "MiniQueryPeg", "Execute", true)
	p.addTok = w.method("miniquery", "tokens32", "Add", true)
	if p.execute == nil || p.addTok == nil {
		unsup("the parser has no Execute or Add")
	}
	p.alias = p.varNames(init)
	pv = p.base.heap[p.peg.Obj].Val.(StructVal)
	rules := pv.Fields[fieldIndex(pegT, "rules")].(SeqVal)
	for i, g := range rules.Segs {
		f, ok := g.Item.(FuncVal)
		if !ok || f.Fn == nil {
			continue
		}
		p.byFn[f.Fn] = i
		addCells(p.base, p.cells, p.alias, f)
	}
	for _, n := range []string{"position", "tokenIndex", "buffer", "tree"} {
		if p.cells[n] == 0 {
			unsup("the parser has no variable %s", n)
		}
	}
	in := infoOf(p.execute)
	for h, body := range in.loops {
		outer := true
		for h2, b2 := range in.loops {
			if h2 != h && b2[h] {
				outer = false
			}
		}
		_ = body
		if outer {
			if p.head != nil {
				unsup("Execute has more than one loop")
			}
			p.head = h
		}
	}
	if p.head == nil {
		unsup("Execute has no loop")
	}
	iff, ok := p.head.Instrs[len(p.head.Instrs)-1].(*ssa.If)
	if !ok {
		unsup("loop of Execute")
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		unsup("loop of Execute")
	}
	var root func(v ssa.Value) *ssa.Phi
	root = func(v ssa.Value) *ssa.Phi {
		switch v := v.(type) {
		case *ssa.Phi:
			return v
		case *ssa.BinOp:
			if f := root(v.X); f != nil {
				return f
			}
			return root(v.Y)
		}
		return nil
	}
	p.index = root(cond)
	for _, ins := range p.head.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok && ph != p.index {
			p.carried = append(p.carried, ph)
		}
	}
	if p.index == nil {
		unsup("loop of Execute has no index")
	}
	return p
}

// varNames gives the variables of the parser the names the generator uses: by their
// types, and the position and the token index by their use in a call of Add.
func (p *Parser) varNames(init *ssa.Function) map[string]string {
	found := map[string]map[string]bool{}
	note := func(as string, v *ssa.FreeVar) {
		if found[as] == nil {
			found[as] = map[string]bool{}
		}
		found[as][v.Name()] = true
	}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		for _, v := range fn.FreeVars {
			t, ok := v.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			switch {
			case types.Identical(t.Elem(), types.NewSlice(types.Typ[types.Rune])):
				note("buffer", v)
			case typeName(t.Elem()) == "miniquery.tokens32":
				note("tree", v)
			case typeName(t.Elem()) == "miniquery.token32":
				note("max", v)
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != p.addTok || len(c.Call.Args) != 5 {
					continue
				}
				for i, as := range map[int]string{3: "position", 4: "tokenIndex"} {
					if u, ok := c.Call.Args[i].(*ssa.UnOp); ok {
						if v, ok := u.X.(*ssa.FreeVar); ok {
							note(as, v)
						}
					}
				}
			}
		}
		for _, f := range fn.AnonFuncs {
			walk(f)
		}
	}
	walk(init)
	out := map[string]string{}
	for as, ns := range found {
		if len(ns) == 1 {
			for n := range ns {
				out[n] = as
			}
		}
	}
	return out
}

func addCells(st *State, cells map[string]int, alias map[string]string, f FuncVal) {
	for j, fv := range f.Fn.FreeVars {
		c, ok := f.Bind[j].(PtrVal)
		if !ok || len(c.Path) != 0 {
			if g, ok := f.Bind[j].(FuncVal); ok && g.Fn != nil {
				addCells(st, cells, alias, g)
			}
			continue
		}
		n := fv.Name()
		if a, ok := alias[n]; ok {
			n = a
		}
		if old, ok := cells[n]; ok {
			if old != c.Obj {
				unsup("two variables %s", n)
			}
			continue
		}
		cells[n] = c.Obj
		switch v := st.heap[c.Obj].Val.(type) {
		case FuncVal:
			if v.Fn != nil {
				addCells(st, cells, alias, v)
			}
		case SeqVal: // the table of rules
			for _, g := range v.Segs {
				if h, ok := g.Item.(FuncVal); ok && h.Fn != nil {
					addCells(st, cells, alias, h)
				}
			}
		}
	}
}

func (x *Exec) cellTerm(st *State, name string) *Term {
	o := st.heap[x.pcells[name]]
	if o == nil {
		unsup("no variable %s", name)
	}
	return x.term(o.Val)
}

func (x *Exec) setCell(st *State, name string, t *Term) {
	o := st.heap[x.pcells[name]]
	st.heap[x.pcells[name]] = &Obj{o.Typ, tv(t)}
}

// current is the index in st.steps of the current token index, -1 if it is unknown.
func (x *Exec) current(st *State) int {
	ti := st.norm(x.cellTerm(st, "tokenIndex"))
	for i := len(st.steps) - 1; i >= 0; i-- {
		if st.steps[i].ti == ti {
			return i
		}
	}
	return -1
}

// curState is the action state at the current token index.
func (x *Exec) curState(st *State) *pstate {
	i := x.current(st)
	if i < 0 {
		unsup("the token index is not one that was current before")
	}
	return st.steps[i].ps
}

// push makes ps the action state after the current tokens.
func (x *Exec) push(st *State, ti *Term, ps *pstate) {
	i := x.current(st)
	if i < 0 {
		unsup("the token index is not one that was current before")
	}
	st.steps = append(st.steps[:i+1:i+1], pentry{ti, ps})
}

func (x *Exec) stepsKey(k *keyer, st *State) string {
	if len(st.steps) == 0 || x.parser == nil {
		return ""
	}
	i := x.current(st)
	if i < 0 {
		i = len(st.steps) - 1
	}
	var b strings.Builder
	for _, e := range st.steps[:i+1] {
		b.WriteString(tkey(e.ti) + ":" + e.ps.key(k) + ";")
	}
	return b.String()
}

// addToken is the meaning of tokens32.Add while a rule is executed.
func (x *Exec) addToken(st *State, args []Value, site *callSite) []Outcome {
	rule, begin, end, index := x.term(args[1]), x.term(args[2]), x.term(args[3]), x.term(args[4])
	ti := x.cellTerm(st, "tokenIndex")
	x.oblige(st, Eq(index, ti), "tokens are added at the token index")
	if rule.Op != "int" {
		unsup("token with a computed rule")
	}
	ps := x.execStep(st, x.curState(st), rule, begin, end)
	x.push(st, Add(ti, Int(1)), ps)
	return one(st)
}

// execStep runs the body of the loop of Execute on one token.
func (x *Exec) execStep(st *State, ps *pstate, rule, begin, end *Term) *pstate {
	p := x.parser
	w := x.w
	s := st.clone()
	treeT, tokT := w.pegNamed("Tree"), w.pegNamed("token32")
	nodeT := types.NewPointer(w.pegNamed("Node"))
	tr := s.heap[x.tree.Obj].Val.(StructVal)
	fs := append([]Value{}, tr.Fields...)
	mkSlice := func(elem types.Type, segs []seg) SliceVal {
		c := SeqVal{elem, segs}
		return SliceVal{Obj: s.alloc(types.NewSlice(elem), c), Off: Int(0), Len: c.len(), Elem: elem}
	}
	iStack, iMarks, iErr := fieldIndex(treeT, "Stack"), fieldIndex(treeT, "marks"), fieldIndex(treeT, "Errors")
	fs[iStack] = mkSlice(nodeT, ps.stack)
	fs[iMarks] = mkSlice(types.Typ[types.Int], ps.marks)
	errT := treeT.Underlying().(*types.Struct).Field(iErr).Type().Underlying().(*types.Slice).Elem()
	fs[iErr] = SliceVal{Elem: errT, Off: Int(0), Len: Int(0)}
	s.heap[x.tree.Obj] = &Obj{treeT, StructVal{treeT, fs}}
	// one token
	tok := StructVal{Typ: tokT}
	ts := tokT.Underlying().(*types.Struct)
	for i := 0; i < ts.NumFields(); i++ {
		switch ts.Field(i).Name() {
		case "pegRule":
			tok.Fields = append(tok.Fields, tv(rule))
		case "begin":
			tok.Fields = append(tok.Fields, tv(begin))
		case "end":
			tok.Fields = append(tok.Fields, tv(end))
		default:
			unsup("token has a field %s", ts.Field(i).Name())
		}
	}
	pegT := w.pegNamed("MiniQueryPeg")
	pv := s.heap[x.peg.Obj].Val.(StructVal)
	it := fieldIndex(pegT, "tokens32")
	pf := append([]Value{}, pv.Fields...)
	tl := pf[it].(StructVal)
	pf[it] = StructVal{tl.Typ, []Value{mkSlice(tokT, []seg{{Item: tok}})}}
	s.heap[x.peg.Obj] = &Obj{pegT, StructVal{pegT, pf}}
	before := s.clone()

	hook := &execHook{ps: ps}
	saveHook, saveStack, saveSteps := x.hook, x.stack, s.steps
	saveRoots, saveFrames := x.roots, x.frames
	x.hook, x.stack = hook, nil
	x.roots, x.frames = []Value{x.tree}, nil
	s.steps = nil
	x.call(s, p.execute, nil, []Value{x.peg})
	x.hook, x.stack = saveHook, saveStack
	x.roots, x.frames = saveRoots, saveFrames
	_ = saveSteps
	if !hook.ran {
		unsup("the loop of Execute was not reached")
	}
	type result struct {
		ps *pstate
		pc []*Term
	}
	var res []result
	for _, e := range hook.backs {
		es := e.st
		tr := es.heap[x.tree.Obj].Val.(StructVal)
		n := &pstate{}
		stack := tr.Fields[iStack].(SliceVal)
		x.noShare(es, stack)
		segs, ok := es.segs(stack)
		if !ok {
			segs = []seg{{Block: es.toTerm(stack, types.NewSlice(nodeT))}}
		}
		for _, g := range segs {
			if g.Item != nil {
				g.Item = tv(es.toTerm(g.Item, nodeT))
			}
			n.stack = append(n.stack, g)
		}
		marks := tr.Fields[iMarks].(SliceVal)
		n.marks, ok = es.segs(marks)
		if !ok {
			n.marks = []seg{{Block: es.toTerm(marks, types.NewSlice(types.Typ[types.Int]))}}
		}
		el := tr.Fields[iErr].(SliceVal).Len
		n.bad = Or(ps.bad, Lt(Int(0), el))
		n.carried = e.carried
		// nothing else may change
		for _, c := range diffCells(before, es, 0) {
			if c.obj == x.tree.Obj {
				continue
			}
			if o := before.heap[c.obj]; o != nil {
				if _, isSeq := o.Val.(SeqVal); isSeq && c.obj > p.maxObj() {
					continue
				}
			}
			x.oblige(es, False, "frame: an action changes the state of the parser")
		}
		res = append(res, result{n, es.pc[len(st.pc):]})
		for _, t := range es.pc[:len(st.pc)] {
			_ = t
		}
	}
	if len(res) == 0 {
		unsup("an action does not return")
	}
	if len(res) == 1 {
		for _, c := range res[0].pc {
			st.assume(c)
		}
		return res[0].ps
	}
	// drop the impossible ones, join the others
	shape := func(q *pstate) string {
		s := ""
		for _, l := range [][]seg{q.stack, q.marks} {
			for _, g := range l {
				if g.Item != nil {
					s += "i"
				} else {
					s += "b"
				}
			}
			s += "/"
		}
		return s
	}
	same := true
	for _, r := range res {
		if shape(r.ps) != shape(res[0].ps) {
			same = false
		}
	}
	if !same {
		var keep []result
		for _, r := range res {
			t := st.clone()
			for _, c := range r.pc {
				t.assume(c)
			}
			if !x.prove(t, False) {
				keep = append(keep, r)
			}
		}
		res = keep
		if len(res) == 0 {
			return ps // unreachable
		}
		for _, r := range res {
			if shape(r.ps) != shape(res[0].ps) {
				unsup("an action has outcomes of different shape")
			}
		}
	}
	pick := func(f func(r result) *Term) *Term {
		var rows []row
		for _, r := range res {
			rows = append(rows, row{r.pc, []*Term{f(r)}})
		}
		return decision(rows, 0)
	}
	out := &pstate{}
	for i, g := range res[0].ps.stack {
		if g.Item != nil {
			out.stack = append(out.stack, seg{Item: tv(pick(func(r result) *Term { return r.ps.stack[i].Item.(TermVal).T }))})
		} else {
			out.stack = append(out.stack, seg{Block: pick(func(r result) *Term { return r.ps.stack[i].Block })})
		}
	}
	for i, g := range res[0].ps.marks {
		if g.Item != nil {
			out.marks = append(out.marks, seg{Item: tv(pick(func(r result) *Term { return r.ps.marks[i].Item.(TermVal).T }))})
		} else {
			out.marks = append(out.marks, seg{Block: pick(func(r result) *Term { return r.ps.marks[i].Block })})
		}
	}
	out.bad = pick(func(r result) *Term { return r.ps.bad })
	for i := range res[0].ps.carried {
		out.carried = append(out.carried, tv(pick(func(r result) *Term { return x.term(r.ps.carried[i]) })))
	}
	return out
}

func (p *Parser) maxObj() int {
	m := 0
	for id := range p.base.heap {
		m = max(m, id)
	}
	return m
}

// noShare: the nodes on the stack must not share the array of the stack.
func (x *Exec) noShare(st *State, stack SliceVal) {
	if stack.Obj == 0 {
		return
	}
	segs, _ := st.segs(stack)
	seen := map[int]bool{}
	hit := false
	var visit func(v Value)
	visit = func(v Value) {
		switch v := v.(type) {
		case PtrVal:
			if seen[v.Obj] {
				return
			}
			seen[v.Obj] = true
			visit(st.heap[v.Obj].Val)
		case StructVal:
			for _, f := range v.Fields {
				visit(f)
			}
		case SliceVal:
			if v.Obj == stack.Obj {
				hit = true
				return
			}
			if v.Obj != 0 && !seen[v.Obj] {
				seen[v.Obj] = true
				for _, g := range st.heap[v.Obj].Val.(SeqVal).Segs {
					if g.Item != nil {
						visit(g.Item)
					}
				}
			}
		}
	}
	for _, g := range segs {
		if g.Item != nil {
			visit(g.Item)
		}
	}
	if hit {
		x.oblige(st, False, "a node shares the array of the stack, later actions would change it")
	}
}

// execHook catches the loop of Execute.
type execHook struct {
	ps    *pstate
	ran   bool
	backs []execBack
}

type execBack struct {
	st      *State
	carried []Value
}

// catchExecute runs one iteration of the loop of Execute.
func (x *Exec) catchExecute(r *region, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, it item) {
	p := x.parser
	hk := x.hook
	hk.ran = true
	q := it.p
	for i, ph := range p.carried {
		q.regs[ph] = hk.ps.carried[i]
	}
	rr := &region{fr: r.fr, body: body, header: h, queue: map[*ssa.BasicBlock][]item{}}
	rr.queue[h] = []item{{q, nil}}
	i0 := x.term(q.regs[p.index])
	if i0.Op != "int" {
		unsup("the loop of Execute does not start at a constant index")
	}
	x.drain(rr)
	if len(rr.exits) > 0 || len(rr.rets) > 0 {
		x.oblige(it.p.st, False, "Execute visits every token")
	}
	for _, b := range rr.backs {
		i1 := x.term(b.p.regs[p.index])
		x.oblige(b.p.st, Eq(i1, Add(i0, Int(1))), "Execute visits the tokens in order")
		var c []Value
		for _, ph := range p.carried {
			c = append(c, b.p.regs[ph])
		}
		hk.backs = append(hk.backs, execBack{b.p.st, c})
	}
}

// initialState is the action state before the first token, with symbolic contents.
func (x *Exec) symbolicState() *pstate {
	ps := &pstate{bad: False}
	ps.stack = []seg{{Block: Var("stack", seqOf(SNode))}}
	ps.marks = []seg{{Block: Var("marks", seqOf(SInt))}}
	for _, ph := range x.parser.carried {
		s := sortOf(ph.Type())
		if s == "" {
			unsup("the loop of Execute carries a %v", ph.Type())
		}
		ps.carried = append(ps.carried, tv(Var("carried_"+ph.Comment, s)))
	}
	return ps
}

// ruleCall is the meaning of a call of a rule: its contract.
func (x *Exec) ruleCall(idx int, f FuncVal) Handler {
	p := x.parser
	name := p.names[idx]
	c := p.contracts[name]
	if c == nil {
		return nil
	}
	return func(x *Exec, st *State, args []Value, site *callSite) []Outcome {
		fn := x.w.spec(c.spec)
		if x.wholeParse && x.pcells == nil {
			x.startParse(st, f)
		}
		pos, ti := st.norm(x.cellTerm(st, "position")), st.norm(x.cellTerm(st, "tokenIndex"))
		x.oblige(st, And(Le(Int(0), pos), Le(pos, SeqLen(p.runes))), "precondition of "+name)
		if x.ruleC != nil {
			if c.rank < x.ruleC.rank {
				x.oblige(st, Le(x.entryPos, pos), "the rule ends: "+name+" is not called further back")
			} else {
				x.oblige(st, Lt(x.entryPos, pos), "the rule ends: "+name+" is called further on")
			}
		}
		res := x.w.specTerms(fn, p.runes, pos)
		end := res[0]
		ps := x.curState(st)
		bad := st.clone()
		var out []Outcome
		lemmas := func(st *State) {
			for _, l := range x.w.lemmas[fn.Name()] {
				st.assume(x.w.specBody(l, []*Term{p.runes, pos})[0])
			}
		}
		if st.assume(Le(Int(0), end)) {
			lemmas(st)
			n := &pstate{ps.stack, ps.marks, ps.bad, ps.carried}
			if len(res) == 3 {
				n.stack = append(ps.stack[:len(ps.stack):len(ps.stack)], seg{Item: tv(res[1])})
				n.bad = Or(ps.bad, res[2])
				n.carried = nil
				for i := range ps.carried {
					n.carried = append(n.carried, tv(UF(fmt.Sprintf("carried_%s_%d", name, i), x.term(ps.carried[i]).Sort, pos, ti, x.term(ps.carried[i]))))
				}
			}
			ti2 := UF("tokens_"+name, SInt, pos, ti)
			x.push(st, ti2, n)
			x.setCell(st, "position", end)
			x.setCell(st, "tokenIndex", ti2)
			x.ranRule(st, ti2)
			out = append(out, Outcome{st, []Value{tv(True)}})
		}
		if bad.assume(Not(Le(Int(0), end))) {
			lemmas(bad)
			if x.wholeParse {
				o := bad.heap[x.pcells["tree"]]
				bad.heap[x.pcells["tree"]] = &Obj{o.Typ, StructVal{o.Val.(StructVal).Typ, []Value{OpaqueVal{"tokens"}}}}
			}
			out = append(out, Outcome{bad, []Value{tv(False)}})
		}
		return out
	}
}

// startParse begins a whole parse: no tokens, nothing on the stack.
func (x *Exec) startParse(st *State, f FuncVal) {
	p := x.parser
	x.pcells = map[string]int{}
	addCells(st, x.pcells, p.alias, f)
	for n := range p.cells {
		if x.pcells[n] == 0 {
			unsup("the parser has no variable %s", n)
		}
	}
	if m := x.pcells["max"]; m != 0 {
		x.oblige(st, x.inText(st.heap[m].Val), "the place of an error is in the text")
		x.muted = map[int]bool{m: true}
	}
	ps := &pstate{bad: False}
	for _, ph := range p.carried {
		var v Value
		for i, pr := range p.head.Preds {
			if c, ok := ph.Edges[i].(*ssa.Const); ok && !p.head.Dominates(pr) {
				v = constVal(c)
			}
		}
		if v == nil {
			unsup("the loop of Execute starts with a computed value")
		}
		ps.carried = append(ps.carried, v)
	}
	ti := st.norm(x.cellTerm(st, "tokenIndex"))
	x.oblige(st, Eq(ti, Int(0)), "a parse starts without tokens")
	x.oblige(st, Eq(x.cellTerm(st, "position"), Int(0)), "a parse starts at the beginning of the text")
	b, ok := st.heap[x.pcells["buffer"]].Val.(SliceVal)
	if !ok {
		unsup("the buffer is a %T", st.heap[x.pcells["buffer"]].Val)
	}
	bs, ok := st.segs(b)
	want := "*" + tkey(p.runes) + ";" + tkey(Int(endRune)) + ";"
	if got := (SeqVal{Segs: bs}).key(&keyer{st: st}); !ok || got != "["+want+"]" {
		x.oblige(st, False, "the buffer holds the text and the end mark")
	}
	st.steps = []pentry{{ti, ps}}
}

// runActions is the meaning of Execute after a match: the action state that was
// followed while matching.
func (x *Exec) runActions(st *State, args []Value) []Outcome {
	w := x.w
	recv, ok := args[0].(PtrVal)
	if !ok {
		unsup("Execute of %T", args[0])
	}
	pegT, treeT := w.pegNamed("MiniQueryPeg"), w.pegNamed("Tree")
	pv := st.heap[recv.Obj].Val.(StructVal)
	toks, ok := pv.Fields[fieldIndex(pegT, "tokens32")].(StructVal).Fields[0].(tokSlice)
	if !ok || toks.trim == nil {
		unsup("Execute without a token list")
	}
	var ps *pstate
	for _, e := range st.steps {
		if e.ti == toks.trim {
			ps = e.ps
		}
	}
	if ps == nil {
		unsup("the tokens do not end at a token index that was current")
	}
	tp, ok := pv.Fields[fieldIndex(pegT, "Tree")].(PtrVal)
	if !ok {
		unsup("the parser has no tree")
	}
	tr := st.heap[tp.Obj].Val.(StructVal)
	for _, f := range tr.Fields {
		if s, ok := f.(SliceVal); !ok || st.simp(Eq(s.Len, Int(0))) != True {
			unsup("Execute does not start with an empty tree")
		}
	}
	mkSlice := func(st *State, elem types.Type, segs []seg) SliceVal {
		c := SeqVal{elem, segs}
		return SliceVal{Obj: st.alloc(types.NewSlice(elem), c), Off: Int(0), Len: c.len(), Elem: elem}
	}
	iErr := fieldIndex(treeT, "Errors")
	errT := treeT.Underlying().(*types.Struct).Field(iErr).Type().Underlying().(*types.Slice).Elem()
	set := func(st *State, errs SliceVal) Outcome {
		fs := append([]Value{}, tr.Fields...)
		fs[fieldIndex(treeT, "Stack")] = mkSlice(st, types.NewPointer(w.pegNamed("Node")), ps.stack)
		fs[fieldIndex(treeT, "marks")] = mkSlice(st, types.Typ[types.Int], ps.marks)
		fs[iErr] = errs
		st.heap[tp.Obj] = &Obj{treeT, StructVal{treeT, fs}}
		return Outcome{st, nil}
	}
	var out []Outcome
	bad := st.clone()
	if st.assume(Not(ps.bad)) {
		out = append(out, set(st, SliceVal{Elem: errT, Off: Int(0), Len: Int(0)}))
	}
	if bad.assume(ps.bad) {
		out = append(out, set(bad, mkSlice(bad, errT, []seg{{Item: OpaqueIface{"error"}}, {Block: Fresh("errors", seqOf("Ptr"))}})))
	}
	return out
}

// verifyParse checks Parse against the grammar.
func (p *Parser) verifyParse() *Exec {
	w := p.w
	x := &Exec{w: w, unit: "Parse", lookup: p.lookup, maxSteps: 2000000, parser: p, wholeParse: true}
	x.focus = map[string]bool{}
	fn := w.fn("miniquery.Parse")
	if fn == nil {
		unsup("there is no Parse")
	}
	outs := x.call(newState(), fn, nil, []Value{tv(p.s)})
	res := w.specTerms(w.spec("Grammar"), p.runes, Int(0))
	valid := And(Le(Int(0), res[0]), Not(res[2]))
	nodeT := types.NewPointer(w.pegNamed("Node"))
	for _, o := range outs {
		for _, failed := range []bool{false, true} {
			s := o.st.clone()
			g := x.isNil(s, o.res[1])
			if failed {
				g = Not(g)
			}
			if s.simp(g) == False || !s.assume(g) {
				continue
			}
			n := s.toTerm(o.res[0], nodeT)
			if failed {
				x.reached(s, "an error")
				x.oblige(s, Not(valid), "a valid query is accepted")
				x.oblige(s, Eq(n, nilNode()), "a tree or an error, not both")
			} else {
				x.reached(s, "a tree")
				x.oblige(s, valid, "an invalid query is rejected")
				x.oblige(s, Eq(n, res[1]), "the tree is the one of the grammar")
				x.oblige(s, w.specTerms(w.spec("WF"), n)[0], "the tree is well formed")
			}
		}
	}
	return x
}

// verifyMessage checks that the message of an error of Parse can be made.
func (p *Parser) verifyMessage() *Exec {
	w := p.w
	x := &Exec{w: w, unit: "messages of errors", lookup: p.lookup, maxSteps: 2000000, parser: p, wholeParse: true}
	x.focus = map[string]bool{}
	fn := w.fn("miniquery.Parse")
	if fn == nil {
		unsup("there is no Parse")
	}
	outs := x.call(newState(), fn, nil, []Value{tv(p.s)})
	x.obls = nil // they are those of the unit Parse
	// what the message says is left open
	x.lookup = func(x *Exec, fn *ssa.Function, args []Value) Handler {
		switch shortName(fn) {
		case "fmt.Sprintf", "fmt.Sprint", "strconv.Quote", "strconv.Itoa":
			return pure(func(x *Exec, st *State, a []Value) Value { return tv(Fresh("message", SStr)) })
		}
		return nil
	}
	for _, o := range outs {
		e, ok := o.res[1].(IfaceVal)
		if !ok || e.Typ == nil {
			continue
		}
		m := need(w.prog.LookupMethod(e.Typ, w.pkgs["miniquery"].Pkg, "Error"), "Error")
		for _, r := range x.call(o.st, m, nil, []Value{e.V}) {
			x.reached(r.st, "a message")
		}
	}
	return x
}

// inText tells that a token is one of the text and has a rule: the place of an error
// is always such a token, so the message of the error can be made.
func (x *Exec) inText(v Value) *Term {
	t, ok := v.(StructVal)
	if !ok {
		unsup("a token is a %T", v)
	}
	get := func(name string) *Term { return x.term(t.Fields[fieldNo(t.Typ, name)]) }
	r, b, e := get("pegRule"), get("begin"), get("end")
	return And(Le(Int(0), r), Lt(r, Int(int64(len(x.parser.names)))), Le(Int(0), b), Le(b, e), Le(e, SeqLen(x.parser.runes)))
}

// maxParts are the fields of the place of an error while it is set field by field.
type maxParts struct {
	st     *State
	fields map[int]Value
}

// setMax checks what the place of an error is set to.
func (x *Exec) setMax(st *State, path []step, v Value) {
	typ := x.w.pegNamed("token32")
	if len(path) == 0 && x.parts == nil {
		x.oblige(st, x.inText(v), "the place of an error is in the text")
		return
	}
	if len(path) != 1 || x.parts != nil && x.parts.st != st {
		unsup("the place of an error is set in parts")
	}
	if x.parts == nil {
		x.parts = &maxParts{st, map[int]Value{}}
	}
	x.parts.fields[path[0].Field] = v
	if n := typ.Underlying().(*types.Struct).NumFields(); len(x.parts.fields) == n {
		t := StructVal{Typ: typ}
		for i := 0; i < n; i++ {
			t.Fields = append(t.Fields, x.parts.fields[i])
		}
		x.parts = nil
		x.oblige(st, x.inText(t), "the place of an error is in the text")
	}
}

// verifyAdd checks that tokens32.Add keeps the tokens before the index.
func (p *Parser) verifyAdd() *Exec {
	w := p.w
	x := &Exec{w: w, unit: "tokens32.Add", maxSteps: 100000}
	tokT, listT := w.pegNamed("token32"), w.pegNamed("tokens32")
	if _, ok := records[typeName(tokT)]; !ok {
		registerRecord(tokT, "Tok", "")
	}
	st := newState()
	b := Var("tokens", seqOf("Tok"))
	sl := SliceVal{Obj: st.alloc(types.NewSlice(tokT), SeqVal{tokT, []seg{{Block: b}}}), Off: Int(0), Len: SeqLen(b), Elem: tokT}
	recv := PtrVal{Obj: st.alloc(listT, StructVal{listT, []Value{sl}})}
	rule, begin, end, index := Var("rule", SInt), Var("begin", SInt), Var("end", SInt), Var("index", SInt)
	st.assume(Le(Int(0), index))
	st.assume(Le(index, SeqLen(b)))
	for _, o := range x.call(st, p.addTok, nil, []Value{recv, tv(rule), tv(begin), tv(end), tv(index)}) {
		s := o.st
		x.reached(s, "a token is added")
		r := s.heap[recv.Obj].Val.(StructVal).Fields[0]
		t := s.toTerm(r, types.NewSlice(tokT))
		x.oblige(s, Lt(index, SeqLen(t)), "the list grows to hold the token")
		rec := records[typeName(tokT)]
		var fs []*Term
		for i := range rec.fields {
			switch rec.fields[i].name {
			case "Tok_pegRule":
				fs = append(fs, rule)
			case "Tok_begin":
				fs = append(fs, begin)
			case "Tok_end":
				fs = append(fs, end)
			}
		}
		x.oblige(s, Eq(SeqNth(t, index), Cons(rec.cons, rec.sort, fs...)), "the token is stored at the index")
		x.oblige(s, Eq(SeqSub(t, Int(0), index), SeqSub(b, Int(0), index)), "the tokens before the index are kept")
	}
	return x
}

// ranRule records the token list after a rule when a whole parse is executed.
func (x *Exec) ranRule(st *State, ti *Term) {
	if !x.wholeParse {
		return
	}
	o := st.heap[x.pcells["tree"]]
	sv := o.Val.(StructVal)
	st.heap[x.pcells["tree"]] = &Obj{o.Typ, StructVal{sv.Typ, []Value{tokSlice{ti: ti}}}}
}

// prepare makes an executor that stands in the rule functions.
func (p *Parser) prepare(x *Exec) {
	x.parser = p
	x.pcells = p.cells
	x.peg, x.tree = p.peg, p.tree
	if m := p.cells["max"]; m != 0 {
		x.muted = map[int]bool{m: true}
	}
}

func (p *Parser) lookup(x *Exec, fn *ssa.Function, args []Value) Handler {
	if fn == p.addTok {
		return func(x *Exec, st *State, args []Value, site *callSite) []Outcome { return x.addToken(st, args, site) }
	}
	if i, ok := p.byFn[fn]; ok {
		return x.ruleCall(i, FuncVal{fn, args[:len(fn.FreeVars)]})
	}
	if fn == p.execute && x.wholeParse {
		return func(x *Exec, st *State, args []Value, site *callSite) []Outcome { return x.runActions(st, args) }
	}
	return nil
}

// sinceMark returns the part of the stack since the last mark.
func (x *Exec) sinceMark(st *State, ps *pstate) ([]seg, []seg, bool) {
	if len(ps.marks) == 0 {
		return nil, nil, false
	}
	m := ps.marks[len(ps.marks)-1]
	if m.Item == nil {
		return nil, nil, false
	}
	c := SeqVal{Segs: ps.stack}
	head, ok1 := c.cut(st, Int(0), x.term(m.Item))
	tail, ok2 := c.cut(st, x.term(m.Item), c.len())
	return head, tail, ok1 && ok2
}

// loopArg evaluates an argument of a tail function at a loop head.
func (x *Exec) loopArg(st *State, a string) *Term {
	switch a {
	case "b":
		return x.parser.runes
	case "pos":
		return x.cellTerm(st, "position")
	}
	i := x.current(st)
	if i < 0 {
		return nil
	}
	ps := st.steps[i].ps
	switch a {
	case "bad":
		return ps.bad
	case "top":
		if len(ps.stack) > 0 && ps.stack[len(ps.stack)-1].Item != nil {
			return x.term(ps.stack[len(ps.stack)-1].Item)
		}
		return nil
	case "list":
		_, tail, ok := x.sinceMark(st, ps)
		if !ok {
			return nil
		}
		return st.segsTerm(tail, types.NewPointer(x.w.pegNamed("Node")))
	}
	var n int64
	if _, err := fmt.Sscan(a, &n); err == nil {
		return Int(n)
	}
	unsup("contract argument %s", a)
	return nil
}

func (x *Exec) tailTerms(st *State, t tailRule) []*Term {
	var as []*Term
	for _, a := range t.args {
		v := x.loopArg(st, a)
		if v == nil {
			return nil
		}
		as = append(as, v)
	}
	return x.w.specTerms(x.w.spec(t.fn), as...)
}

// ---- generalisation of the action state at loop heads

type ghostGen struct {
	on      bool
	items   map[int]bool
	block   bool
	bad     bool
	marks   bool
	carried bool
	ps      *pstate
}

func (x *Exec) havocParse(g *ghostGen, entry, st *State) {
	if !g.on {
		return
	}
	i := x.current(entry)
	if i < 0 {
		unsup("the token index is not one that was current before")
	}
	ps := entry.steps[i].ps
	n := &pstate{stack: ps.stack, marks: ps.marks, bad: ps.bad, carried: ps.carried}
	if g.block {
		head, _, ok := x.sinceMark(entry, ps)
		if !ok {
			unsup("a loop changes the depth of the stack")
		}
		n.stack = append(head[:len(head):len(head)], seg{Block: Fresh("nodes", seqOf(SNode))})
	} else if len(g.items) > 0 {
		n.stack = append([]seg{}, ps.stack...)
		for j := range g.items {
			if n.stack[j].Item != nil {
				n.stack[j] = seg{Item: tv(Fresh("node", SNode))}
			} else {
				n.stack[j] = seg{Block: Fresh("nodes", seqOf(SNode))}
			}
		}
	}
	if g.bad {
		n.bad = Fresh("bad", SBool)
	}
	if g.marks {
		unsup("a loop changes the marks")
	}
	if g.carried {
		n.carried = nil
		for _, c := range ps.carried {
			n.carried = append(n.carried, tv(Fresh("carried", x.term(c).Sort)))
		}
	}
	ti := x.cellTerm(st, "tokenIndex")
	if ti == entry.steps[i].ti {
		st.steps = append(entry.steps[:i:i], pentry{ti, n})
	} else {
		st.steps = append(entry.steps[:i+1:i+1], pentry{ti, n})
	}
}

// parseChanged compares the action states at the head and at a back edge.
func (x *Exec) parseChanged(g *ghostGen, head, back *State) bool {
	if x.parser == nil || len(head.steps) == 0 {
		return false
	}
	grew := false
	hi, bi := x.current(head), x.current(back)
	if hi < 0 || bi < 0 {
		unsup("the token index is not one that was current before")
	}
	if head.steps[hi].ti != back.steps[bi].ti && !g.on {
		g.on = true
		grew = true
	}
	a, b := head.steps[hi].ps, back.steps[bi].ps
	k := &keyer{st: head, mark: 1 << 60}
	if ka, kb := (SeqVal{Segs: a.stack}).key(k), (SeqVal{Segs: b.stack}).key(k); ka != kb && !g.block {
		g.on = true
		if len(a.stack) != len(b.stack) {
			g.block, grew = true, true
		} else {
			for i := range a.stack {
				if (SeqVal{Segs: a.stack[i : i+1]}).key(k) != (SeqVal{Segs: b.stack[i : i+1]}).key(k) && !g.items[i] {
					if g.items == nil {
						g.items = map[int]bool{}
					}
					g.items[i] = true
					grew = true
				}
			}
		}
	}
	if a.bad != b.bad && !g.bad {
		g.on, g.bad, grew = true, true, true
	}
	if (SeqVal{Segs: a.marks}).key(k) != (SeqVal{Segs: b.marks}).key(k) && !g.marks {
		g.on, g.marks, grew = true, true, true
	}
	if keys(k, a.carried) != keys(k, b.carried) && !g.carried {
		g.on, g.carried, grew = true, true, true
	}
	return grew
}

// parseFacts are candidate facts at a loop head.
func (x *Exec) parseFacts() []fact {
	if x.parser == nil || x.pcells == nil || x.hook != nil {
		return nil
	}
	pos := func(e *loopEnv) *Term { return x.cellTerm(e.st, "position") }
	fs := []fact{
		{func(e *loopEnv) *Term { return Le(Int(0), pos(e)) }},
		{func(e *loopEnv) *Term { return Le(pos(e), SeqLen(x.parser.runes)) }},
	}
	if x.ruleC != nil {
		fs = append(fs, fact{func(e *loopEnv) *Term { return Le(x.entryPos, pos(e)) }})
		for _, f := range x.ruleC.facts {
			fs = append(fs, fact{func(e *loopEnv) *Term {
				if t := x.tailTerms(e.st, f); t != nil {
					return t[0]
				}
				return nil
			}})
		}
	}
	return fs
}

// verifyRule checks a rule function against its contract.
func (p *Parser) verifyRule(idx int, fv FuncVal) *Exec {
	w := p.w
	name := p.names[idx]
	c := p.contracts[name]
	x := &Exec{w: w, unit: "rule " + name, lookup: p.lookup, maxSteps: 2000000}
	p.prepare(x)
	x.ruleC = c
	x.focus = map[string]bool{c.spec: true}
	for _, t := range append(append([]tailRule{}, c.loops...), c.facts...) {
		x.focus[t.fn] = true
		x.loops = append(x.loops, loopRule{name: t.fn, mk: func(x *Exec, env *loopEnv) []*Term { return x.tailTerms(env.st, t) }})
	}
	x.loops = append(x.loops[:len(c.loops):len(c.loops)], x.actionLoops()...)
	for _, t := range c.loops {
		// what a function that is not opaque stands for
		fn := w.spec(t.fn)
		var args []*Term
		for _, pr := range fn.Params {
			args = append(args, Var("any_"+pr.Name(), sortOf(pr.Type())))
		}
		collect(w.specTerms(fn, args...), func(t *Term) {
			if f := specFns[t.Name]; t.Op == "uf" && f != nil {
				x.focus[f.Name()] = true
			}
		})
	}
	st := p.base.clone()
	pos, ti := Var("pos", SInt), Var("ti", SInt)
	x.entryPos = pos
	st.assume(Le(Int(0), pos))
	st.assume(Le(pos, SeqLen(p.runes)))
	x.setCell(st, "position", pos)
	x.setCell(st, "tokenIndex", ti)
	ps0 := x.symbolicState()
	st.steps = []pentry{{ti, ps0}}
	entry := st.clone()
	// the rule itself is executed, calls of it inside are by contract
	outs := x.call(st, fv.Fn, fv.Bind, nil)
	spec := w.spec(c.spec)
	res := w.specTerms(spec, p.runes, pos)
	nodeT := types.NewPointer(w.pegNamed("Node"))
	for _, o := range outs {
		r := o.st.simp(x.term(o.res[0]))
		for _, cse := range []bool{true, false} {
			s := o.st.clone()
			g := r
			if !cse {
				g = Not(r)
			}
			if g == False || !s.assume(g) {
				continue
			}
			if cse {
				x.reached(s, "a match")
				x.oblige(s, Le(Int(0), res[0]), "matches only what the grammar matches")
				x.oblige(s, Eq(x.cellTerm(s, "position"), res[0]), "ends where the grammar ends")
				i := x.current(s)
				if i < 0 {
					x.oblige(s, False, "token index after a match")
					continue
				}
				ps := s.steps[i].ps
				stack := s.segsTerm(ps.stack, nodeT)
				want := s.segsTerm(ps0.stack, nodeT)
				if len(res) == 3 {
					want = SeqCat(want.Sort, want, SeqUnit(res[1]))
					x.oblige(s, Eq(ps.bad, res[2]), "reports an integer out of range")
				} else {
					x.oblige(s, Eq(ps.bad, False), "records no error")
					for i := range ps.carried {
						x.oblige(s, Eq(x.term(ps.carried[i]), x.term(ps0.carried[i])), "keeps the text of the last capture")
					}
				}
				x.oblige(s, Eq(stack, want), "builds the tree of the grammar")
				x.oblige(s, Eq(s.segsTerm(ps.marks, types.Typ[types.Int]), s.segsTerm(ps0.marks, types.Typ[types.Int])), "restores the marks")
			} else {
				x.oblige(s, Lt(res[0], Int(0)), "fails only where the grammar fails")
				x.oblige(s, Eq(x.cellTerm(s, "position"), pos), "restores the position")
				x.oblige(s, Eq(x.cellTerm(s, "tokenIndex"), ti), "restores the token index")
			}
			for _, d := range diffCells(entry, s, 0) {
				if d.obj != p.cells["position"] && d.obj != p.cells["tokenIndex"] && !x.muted[d.obj] {
					x.oblige(s, False, "frame: the rule changes other state of the parser")
				}
			}
		}
	}
	return x
}

// actionLoops are the conserved quantities of the loops in actions.
func (x *Exec) actionLoops() []loopRule {
	x.focus["NamesFrom"] = true
	return []loopRule{
		{name: "bad", mk: func(x *Exec, env *loopEnv) []*Term {
			if i := x.current(env.st); i >= 0 {
				return []*Term{env.st.steps[i].ps.bad}
			}
			return nil
		}},
		{name: "NamesFrom", mk: func(x *Exec, env *loopEnv) []*Term {
			var out []*Term
			for _, ids := range env.seqs {
				if sortOf(ids.Elem) != SNode {
					continue
				}
				for _, names := range env.seqs {
					if sortOf(names.Elem) != SStr {
						continue
					}
					b, n := env.st.sliceTerm(ids), env.st.sliceTerm(names)
					for _, i := range env.ints {
						if b == nil || n == nil {
							out = append(out, nil, nil)
							continue
						}
						rest := x.w.specTerms(x.w.spec("NamesFrom"), b, i)[0]
						out = append(out, SeqCat(n.Sort, n, rest), env.filled(n, i, rest))
					}
				}
			}
			return out
		}},
	}
}

// filled is a list of which the first i elements are written, followed by the rest.
func (e *loopEnv) filled(l, i, rest *Term) *Term {
	if i.Op == "int" && i.I < 0 || e.st.simp(Le(i, SeqLen(l))) == False {
		return nil
	}
	return SeqCat(l.Sort, SeqSub(l, Int(0), i), rest)
}

// sliceTerm is the content of a slice, nil if it cannot be told.
func (s *State) sliceTerm(v SliceVal) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			t = nil
		}
	}()
	return s.toTerm(v, types.NewSlice(v.Elem))
}

// rulesInOrder lists the rules that have a contract.
func (p *Parser) rulesInOrder() []int {
	var out []int
	for _, i := range p.byFn {
		if p.contracts[p.names[i]] != nil {
			out = append(out, i)
		}
	}
	sort.Ints(out)
	return out
}

func (p *Parser) ruleFn(idx int) FuncVal {
	pv := p.base.heap[p.peg.Obj].Val.(StructVal)
	return pv.Fields[fieldIndex(pv.Typ, "rules")].(SeqVal).Segs[idx].Item.(FuncVal)
}
