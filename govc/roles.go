package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A role is the contract of a function that works through a tree by recursion:
// what it adds to the state it works on, for every node it is called with. Which
// function has the role is found out by executing the entry point: it is the one
// that is called again while it runs. Its body is verified once, for an arbitrary
// node and an arbitrary state, with the recursive calls taken by the contract.
type role struct {
	name string
	find func(x *Exec, c *compFinder)
	pre  func(x *Exec, n *Term) *Term
	// ok is the condition under which the function gives no error; nil if it has none
	ok func(x *Exec, n *Term) *Term
	// upd is the content of a component afterwards, names the obligation
	upd map[string]func(x *Exec, n, old *Term) *Term
	// upds is the same with the contents of all components before
	upds  map[string]func(x *Exec, n *Term, old map[string]*Term) *Term
	names map[string]string
	// res is the result of a function that returns a value, nil if it is left open
	res func(x *Exec, n *Term) *Term
	// link gives what ties components together (assumed at entry, to be shown at calls)
	link func(x *Exec, st *State, get func(comp string) *Term) *Term
	// rest are the contributions of the elements of a list from an index on, by
	// component; "ok" is the condition, "seq <sort>" a list in a local variable
	rest map[string][]func(x *Exec, xs, i *Term) *Term
	// enter finds out what the function works with besides the components; calls
	// of the same shape are instances of a verification for an arbitrary receiver
	enter func(x *Exec, st *State, args []Value) (shape string, leave func())
	// anyRecv makes the receiver an arbitrary one of its shape
	anyRecv func(x *Exec, st *State, args []Value)
	// kind tells apart the nodes whose obligations have names of their own
	kind func(x *Exec, st *State, n *Term) string
}

// comp is a part of the state that a role changes.
type comp struct {
	name string
	cell cell
	get  func(st *State) *Term
	set  func(st *State, t *Term)
	sort Sort
	back func(st *State) int // array behind a slice
}

type compFinder struct {
	x     *Exec
	st    *State
	comps []*comp
	cells []reachCell
}

type reachCell struct {
	cell
	typ types.Type
	v   Value
}

// reachCells lists the cells that can be reached from values.
func (x *Exec) reachCells(st *State, roots []Value) []reachCell {
	var out []reachCell
	seen := map[int]bool{}
	var visit func(v Value)
	var walk func(id int, path []step, v Value, t types.Type)
	walk = func(id int, path []step, v Value, t types.Type) {
		out = append(out, reachCell{cell{id, path}, t, v})
		if s, ok := v.(StructVal); ok {
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i, f := range s.Fields {
				walk(id, append(path[:len(path):len(path)], step{Field: i}), f, u.Field(i).Type())
			}
			return
		}
		visit(v)
	}
	visitObj := func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		if o := st.heap[id]; o != nil {
			walk(id, nil, o.Val, o.Typ)
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case PtrVal:
			visitObj(v.Obj)
		case StructVal:
			for _, f := range v.Fields {
				visit(f)
			}
		case FuncVal:
			for _, b := range v.Bind {
				visit(b)
			}
		case IfaceVal:
			if v.Typ != nil {
				visit(v.V)
			}
		case MapVal:
			visitObj(v.Obj)
		case SliceVal:
			visitObj(v.Obj)
		case SeqVal:
			for _, g := range v.Segs {
				if g.Item != nil {
					visit(g.Item)
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

// only is the one cell that f accepts; there may be none.
func (c *compFinder) only(what string, f func(r reachCell) bool) (reachCell, bool) {
	var hit []reachCell
	for _, r := range c.cells {
		if f(r) {
			hit = append(hit, r)
		}
	}
	if len(hit) > 1 {
		unsup("more than one %s", what)
	}
	if len(hit) == 0 {
		return reachCell{}, false
	}
	return hit[0], true
}

func (c *compFinder) add(m *comp) { c.comps = append(c.comps, m) }

// text finds the strings.Builder.
func (c *compFinder) text(name string) {
	r, ok := c.only("text", func(r reachCell) bool { _, ok := r.v.(BuilderVal); return ok })
	if !ok {
		unsup("no text is written")
	}
	x := c.x
	c.add(&comp{name: name, cell: r.cell, sort: SStr,
		get: func(st *State) *Term { return x.cellVal(st, r.cell).(BuilderVal).Text },
		set: func(st *State, t *Term) { x.setCellVal(st, r.cell, BuilderVal{t}) }})
}

// list finds the variable that holds a slice with elements of a sort.
func (c *compFinder) list(name string, elem Sort) {
	r, ok := c.only("list of "+string(elem), func(r reachCell) bool {
		s, ok := r.v.(SliceVal)
		return ok && sortOf(s.Elem) == elem
	})
	if !ok {
		unsup("no list of %s", elem)
	}
	x := c.x
	el := r.v.(SliceVal).Elem
	c.add(&comp{name: name, cell: r.cell, sort: seqOf(elem),
		get: func(st *State) *Term { return st.toTerm(x.cellVal(st, r.cell), types.NewSlice(el)) },
		set: func(st *State, t *Term) {
			var segs []seg
			for _, p := range seqParts(t) {
				if p.Op == "seq.unit" {
					segs = append(segs, seg{Item: fromTerm(p.Args[0], el)})
				} else {
					segs = append(segs, seg{Block: p})
				}
			}
			s := SliceVal{Obj: st.alloc(types.NewSlice(el), SeqVal{el, segs}), Off: Int(0), Len: SeqLen(t), Elem: el}
			x.setCellVal(st, r.cell, s)
		},
		back: func(st *State) int { return x.cellVal(st, r.cell).(SliceVal).Obj },
	})
}

// keys finds the map with texts as keys.
func (c *compFinder) keys(name string) {
	r, ok := c.only("map", func(r reachCell) bool { m, ok := r.v.(mapObj); return ok && sortOf(m.Typ.Key()) == SStr })
	if !ok {
		unsup("no map")
	}
	x := c.x
	c.add(&comp{name: name, cell: r.cell, sort: seqOf(SStr),
		get: func(st *State) *Term { return x.cellVal(st, r.cell).(mapObj).Keys },
		set: func(st *State, t *Term) {
			x.setCellVal(st, r.cell, mapObj{t, x.cellVal(st, r.cell).(mapObj).Typ})
		}})
}

// pointer finds the variable with a pointer to a structure of a dependency.
func (c *compFinder) pointer(name, typ string) {
	r, ok := c.only(name, func(r reachCell) bool { _, ok := r.v.(OpaquePtr); return ok && typeName(r.typ) == typ })
	if !ok {
		unsup("no %s", name)
	}
	x := c.x
	c.add(&comp{name: name, cell: r.cell, sort: "Ptr",
		get: func(st *State) *Term { return x.cellVal(st, r.cell).(OpaquePtr).T },
		set: func(st *State, t *Term) { x.setCellVal(st, r.cell, OpaquePtr{t}) }})
}

// ghost is ghost state.
func (c *compFinder) ghost(name string) {
	x := c.x
	c.add(&comp{name: name, cell: cell{obj: x.ghosts[name]}, sort: x.ghost(c.st, name).Sort,
		get: func(st *State) *Term { return x.ghost(st, name) },
		set: func(st *State, t *Term) { x.setGhost(st, name, t) }})
}

// Ghost state lives in cells of the heap that the program cannot reach.
func (x *Exec) newGhost(st *State, name string, t *Term) {
	if x.ghosts == nil {
		x.ghosts = map[string]int{}
	}
	x.ghosts[name] = st.alloc(types.Typ[types.Invalid], tv(t))
}

func (x *Exec) ghost(st *State, name string) *Term { return st.heap[x.ghosts[name]].Val.(TermVal).T }

func (x *Exec) setGhost(st *State, name string, t *Term) {
	o := st.heap[x.ghosts[name]]
	st.heap[x.ghosts[name]] = &Obj{o.Typ, tv(t)}
}

func (x *Exec) cellVal(st *State, c cell) Value { return x.getPath(st, st.heap[c.obj].Val, c.path) }

func (x *Exec) setCellVal(st *State, c cell, v Value) {
	o := st.heap[c.obj]
	st.heap[c.obj] = &Obj{o.Typ, x.setPath(st, o.Val, c.path, v)}
}

// roleRun is the verification of the body of a function against its role.
type roleRun struct {
	fn    *ssa.Function
	role  *role
	node  *Term
	nidx  int
	bind  []Value
	args  []Value
	entry *State
	comps []*comp
	frame *roleFrame
	old   map[string]*Term
	shape string
}

// roleFrame is what a function with a role changes besides the components.
type roleFrame struct {
	cells map[string]cell
	args  map[int]bool
	grew  bool
}

// restart asks for the unit to be run again with a function as one with a role.
type restart struct{ fn *ssa.Function }

// withRoles runs a unit, and again for every function that turns out to be recursive.
func withRoles(f func(recs map[*ssa.Function]bool) *Exec) *Exec {
	recs := map[*ssa.Function]bool{}
	for {
		var again bool
		var x *Exec
		func() {
			defer func() {
				if r := recover(); r != nil {
					q, ok := r.(restart)
					if !ok {
						panic(r)
					}
					recs[q.fn] = true
					again = true
				}
			}()
			x = f(recs)
		}()
		if !again {
			return x
		}
		if len(recs) > 4 {
			unsup("too many recursive functions")
		}
	}
}

func (c cell) key() string {
	return PtrVal{c.obj, c.path}.key(&keyer{mark: 1 << 60})
}

func nodeParam(fn *ssa.Function) bool {
	for _, a := range fn.Params {
		if t := a.Type(); isNodePtr(t) || typeName(t) == "miniquery.Node" {
			return true
		}
	}
	return false
}

// roleCall takes a call of a recursive function by its contract.
func (x *Exec) roleCall(st *State, fn *ssa.Function, bind, args []Value) []Outcome {
	r := x.role
	nidx := -1
	for i, a := range fn.Params {
		if t := a.Type(); isNodePtr(t) || typeName(t) == "miniquery.Node" {
			if nidx >= 0 {
				unsup("%s has two nodes", shortName(fn))
			}
			nidx = i
		}
	}
	if nidx < 0 {
		unsup("recursive function %s without a node", shortName(fn))
	}
	shape := ""
	if r.enter != nil {
		var leave func()
		shape, leave = r.enter(x, st, args)
		defer leave()
	}
	c := &compFinder{x: x, st: st, cells: x.reachCells(st, append(append([]Value{}, bind...), args...))}
	if r.find != nil {
		r.find(x, c)
	}
	nodeT := types.NewPointer(x.w.pegNamed("Node"))
	n := st.toTerm(args[nidx], nodeT)

	var run *roleRun
	for _, q := range x.runs {
		if q.fn == fn && q.shape == shape {
			run = q
		}
	}
	if run == nil {
		run = x.roleVerify(st, fn, bind, args, nidx, c.comps, shape)
	} else {
		x.roleSame(run, st, bind, args, c.comps)
		if !lighter(st, n, run.node) {
			w := x.w.spec("Weight")
			x.oblige(st, Lt(x.w.specTerms(w, n)[0], x.w.specTerms(w, run.node)[0]), "the recursion ends in "+shortName(fn))
		}
	}
	x.oblige(st, r.pre(x, n), "precondition of "+shortName(fn)+": the tree is well formed")
	if r.link != nil {
		x.oblige(st, r.link(x, st, getter(st, c.comps)), "precondition of "+shortName(fn)+": the state is consistent")
	}
	x.noAlias(st, c.comps)
	for _, k := range sortedKeys(run.frame.cells) {
		cl := run.frame.cells[k]
		x.setCellVal(st, cl, x.havocVal(st, x.cellVal(st, cl), "changed"))
	}
	var out []Outcome
	if r.ok != nil {
		bad := st.clone()
		if bad.assume(Not(r.ok(x, n))) {
			for _, m := range c.comps {
				m.set(bad, Fresh(m.name, m.sort))
			}
			if r.link != nil {
				bad.assume(r.link(x, bad, getter(bad, c.comps)))
			}
			out = append(out, Outcome{bad, []Value{OpaqueIface{"error"}}})
		}
		if !st.assume(r.ok(x, n)) {
			return out
		}
	}
	old := map[string]*Term{}
	for _, m := range c.comps {
		old[m.name] = m.get(st)
	}
	for _, m := range c.comps {
		if t := r.after(x, m.name, n, old); t != nil {
			m.set(st, t)
		} else {
			m.set(st, Fresh(m.name, m.sort))
		}
	}
	if r.link != nil {
		st.assume(r.link(x, st, getter(st, c.comps)))
	}
	switch {
	case r.res != nil:
		rt := fn.Signature.Results().At(0).Type()
		if t := r.res(x, n); t != nil {
			return append(out, Outcome{st, []Value{fromTerm(t, rt)}})
		}
		return append(out, Outcome{st, []Value{x.arbitrary(st, rt, "result")}})
	case r.ok != nil:
		return append(out, Outcome{st, []Value{IfaceVal{}}})
	}
	return append(out, Outcome{st, nil})
}

func getter(st *State, comps []*comp) func(string) *Term {
	return func(name string) *Term {
		for _, m := range comps {
			if m.name == name {
				return m.get(st)
			}
		}
		unsup("no component %s", name)
		return nil
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// noAlias: nobody else holds a slice that is a component of a role.
func (x *Exec) noAlias(st *State, comps []*comp) {
	for _, m := range comps {
		if m.back == nil {
			continue
		}
		obj := m.back(st)
		if obj == 0 {
			continue
		}
		for _, f := range x.frames {
			for v := range f.live {
				if s, ok := f.regs[v].(SliceVal); ok && s.Obj == obj {
					unsup("a part of the list %s is held while it changes", m.name)
				}
			}
		}
	}
}

// roleSame: a recursive call works on the same state as its caller.
func (x *Exec) roleSame(run *roleRun, st *State, bind, args []Value, comps []*comp) {
	if len(comps) != len(run.comps) {
		unsup("a recursive call works on another state")
	}
	other := run.role.enter != nil && comps[0].cell.obj != run.comps[0].cell.obj
	if other && len(run.frame.cells) > 0 {
		unsup("a recursive call with another receiver")
	}
	for i := range comps {
		if other && comps[i].name == run.comps[i].name {
			continue
		}
		if comps[i].name != run.comps[i].name || comps[i].cell.key() != run.comps[i].cell.key() {
			unsup("a recursive call works on another %s", comps[i].name)
		}
	}
	k := func(st *State, v Value) string { return v.key(&keyer{st: st, mark: 1 << 60}) }
	for i := range bind {
		if k(st, bind[i]) != k(run.entry, run.bind[i]) {
			unsup("a recursive call with other captured variables")
		}
	}
	for i := range args {
		if _, isPtr := args[i].(PtrVal); other && isPtr {
			continue
		}
		if i != run.nidx && k(st, args[i]) != k(run.entry, run.args[i]) && !run.frame.args[i] {
			run.frame.args[i] = true
			run.frame.grew = true
		}
	}
	x.roleFrame(run, st)
}

// roleFrame notes cells that differ from the entry state of the function.
func (x *Exec) roleFrame(run *roleRun, st *State) {
	skip := map[string]bool{}
	back := map[int]bool{}
	for _, m := range run.comps {
		skip[m.cell.key()] = true
		if m.back != nil {
			back[m.back(run.entry)] = true
		}
	}
	for _, c := range diffCells(run.entry, st, 0) {
		k := c.key()
		if skip[k] || back[c.obj] {
			continue
		}
		if _, ok := run.frame.cells[k]; !ok {
			run.frame.cells[k] = c
			run.frame.grew = true
		}
	}
}

// roleVerify checks the body of a function against its role.
func (x *Exec) roleVerify(st *State, fn *ssa.Function, bind, args []Value, nidx int, comps []*comp, shape string) *roleRun {
	r := x.role
	res := fn.Signature.Results()
	switch {
	case r.res != nil && res.Len() != 1,
		r.ok != nil && (res.Len() != 1 || typeName(res.At(0).Type()) != "error"),
		r.res == nil && r.ok == nil && res.Len() != 0:
		unsup("the results of %s", shortName(fn))
	}
	key := shortName(fn) + "|" + keys(&keyer{st: st, mark: 1 << 60}, append(append([]Value{}, bind...), args...))
	for _, t := range st.pc {
		key += fmt.Sprintf(",%d", t.ID)
	}
	key += heapKey(&keyer{st: st, mark: 1 << 60}, st)
	if r.enter != nil {
		// verified for an arbitrary receiver and without what is known of the caller
		key = "any " + shortName(fn) + shape
	}
	if run := x.roleDone[key]; run != nil {
		return run
	}
	frame := &roleFrame{cells: map[string]cell{}, args: map[int]bool{}}
	runs := x.runs
	defer func() { x.runs = runs }()
	for round := 0; ; round++ {
		if round > 10 {
			unsup("no frame for %s", shortName(fn))
		}
		nObl, nReach, nNotes := len(x.obls), len(x.reach), len(x.loopNotes)
		frame.grew = false
		g := st.clone()
		if r.enter != nil {
			g = newState()
			g.heap = cp(st.heap)
		}
		run := &roleRun{fn: fn, role: r, nidx: nidx, bind: bind, comps: comps, frame: frame, shape: shape, old: map[string]*Term{}}
		for _, m := range comps {
			t := Fresh("old_"+m.name, m.sort)
			run.old[m.name] = t
			m.set(g, t)
		}
		if r.anyRecv != nil {
			r.anyRecv(x, g, args)
		}
		for _, k := range sortedKeys(frame.cells) {
			c := frame.cells[k]
			x.setCellVal(g, c, x.havocVal(g, x.cellVal(g, c), "any"))
		}
		run.node = Fresh("node", SNode)
		a := append([]Value{}, args...)
		for i := range a {
			if frame.args[i] {
				a[i] = x.havocVal(g, a[i], "arg")
			}
		}
		a[nidx] = tv(run.node)
		run.args = a
		leave := func() {}
		if r.enter != nil {
			_, leave = r.enter(x, g, a)
		}
		g.assume(Not(Eq(run.node, nilNode())))
		g.assume(r.pre(x, run.node))
		if r.link != nil {
			g.assume(r.link(x, g, getter(g, comps)))
		}
		run.entry = g.clone()
		x.runs = append(runs, run)
		outs := x.callBody(g, fn, bind, a)
		for _, o := range outs {
			x.roleFrame(run, o.st)
		}
		if !frame.grew {
			for _, o := range outs {
				x.roleExit(run, o)
			}
		}
		leave()
		if !frame.grew {
			if x.dry == 0 && (r.enter == nil || len(frame.cells)+len(frame.args) == 0) {
				if x.roleDone == nil {
					x.roleDone = map[string]*roleRun{}
				}
				x.roleDone[key] = run
			}
			return run
		}
		for k := range x.roleDone {
			if strings.HasPrefix(k, "any ") {
				delete(x.roleDone, k)
			}
		}
		x.obls, x.reach, x.loopNotes = x.obls[:nObl], x.reach[:nReach], x.loopNotes[:nNotes]
	}
}

// lighter: n has less weight than the tree it was taken from. It is a part of it,
// or such a part in parentheses, which weigh half of any other node.
func lighter(st *State, n, root *Term) bool {
	if partOf(n, root) {
		return true
	}
	n = st.norm(n)
	if n.Op != "cons" || n.Sort != SNode || len(n.Args) == 0 || n.Args[0] != Str("parentheses") {
		return false
	}
	typ := sortOfRec[SNode].sel(0, root)
	var inner *Term
	for _, a := range n.Args[1:] {
		switch {
		case a.Sort == SNode && a != nilNode():
			if inner != nil {
				return false
			}
			inner = a
		case a.Sort == seqOf(SNode) && SeqLen(a) != Int(0):
			return false
		}
	}
	return inner != nil && partOf(inner, root) && st.simp(Eq(typ, Str("parentheses"))) == False
}

// roleExit checks an outcome of a function against its role.
func (x *Exec) roleExit(run *roleRun, o Outcome) {
	r := run.role
	if r.ok == nil {
		x.roleDoneOK(run, o)
		return
	}
	x.byNil(o, 0, func(o Outcome, isNil bool) {
		if isNil {
			x.oblige(o.st, r.ok(x, run.node), run.what(x, o.st, "ok"))
			x.roleDoneOK(run, o)
			return
		}
		if x.dry == 0 {
			x.reached(o.st.clone(), r.name+" fails")
		}
		x.oblige(o.st, Not(r.ok(x, run.node)), run.what(x, o.st, "error"))
		if r.link != nil {
			x.oblige(o.st, r.link(x, o.st, getter(o.st, run.comps)), r.what("link"))
		}
	})
}

// after is the content of a component after a call, nil if it is not specified.
func (r *role) after(x *Exec, name string, n *Term, old map[string]*Term) *Term {
	if u := r.upd[name]; u != nil {
		return u(x, n, old[name])
	}
	if u := r.upds[name]; u != nil {
		return u(x, n, old)
	}
	return nil
}

// what names an obligation on leaving a function.
func (run *roleRun) what(x *Exec, st *State, name string) string {
	if r := run.role; r.kind != nil {
		if s := r.names[r.kind(x, st, run.node)+" "+name]; s != "" {
			return s
		}
	}
	return run.role.what(name)
}

func (r *role) what(name string) string {
	if s := r.names[name]; s != "" {
		return s
	}
	return r.name + ": " + name
}

// roleDoneOK checks an outcome without an error.
func (x *Exec) roleDoneOK(run *roleRun, o Outcome) {
	r, st := run.role, o.st
	if x.dry == 0 {
		x.reached(st.clone(), r.name+" succeeds")
	}
	for _, m := range run.comps {
		if t := r.after(x, m.name, run.node, run.old); t != nil {
			x.oblige(st.clone(), Eq(m.get(st), t), run.what(x, st, m.name))
		}
	}
	if r.link != nil {
		x.oblige(st.clone(), r.link(x, st, getter(st, run.comps)), r.what("link"))
	}
	if r.res != nil {
		rt := run.fn.Signature.Results().At(0).Type()
		if t := r.res(x, run.node); t != nil {
			x.oblige(st.clone(), Eq(st.toTerm(o.res[0], rt), t), r.what("result"))
		}
	}
}

// byNil gives an outcome to f, as the two of them if it is not known whether a
// result is nil.
func (x *Exec) byNil(o Outcome, res int, f func(o Outcome, isNil bool)) {
	switch n := o.st.simp(x.isNil(o.st, o.res[res])); n {
	case True:
		f(o, true)
	case False:
		f(o, false)
	default:
		bad := Outcome{o.st.clone(), o.res}
		if o.st.assume(n) {
			f(o, true)
		}
		if bad.st.assume(Not(n)) {
			f(bad, false)
		}
	}
}

// roleLoops are the quantities that loops over children conserve.
func roleLoops(r *role) []loopRule {
	var out []loopRule
	for _, name := range sortedKeys(r.rest) {
		for k, f := range r.rest[name] {
			out = append(out, loopRule{group: name, name: fmt.Sprintf("%s %s %d", r.name, name, k), mk: func(x *Exec, env *loopEnv) []*Term {
				var bases []*Term
				seqSort := Sort("")
				switch {
				case name == "ok":
					bases = []*Term{nil}
				case len(name) > 4 && name[:4] == "seq ":
					seqSort = Sort(name[4:])
					for _, s := range env.seqs {
						if sortOf(s.Elem) == seqSort {
							bases = append(bases, env.st.sliceTerm(s))
						}
					}
				default:
					if len(x.runs) == 0 {
						return nil
					}
					for _, m := range x.runs[len(x.runs)-1].comps {
						if m.name == name {
							bases = []*Term{m.get(env.st)}
						}
					}
				}
				var ts []*Term
				for _, xs := range env.seqs {
					if sortOf(xs.Elem) != SNode {
						continue
					}
					l := env.st.sliceTerm(xs)
					for _, b := range bases {
						for _, i := range env.ints {
							if l == nil || b == nil && name != "ok" || i.Op == "int" && i.I < 0 {
								ts = append(ts, nil)
								if seqSort != "" {
									ts = append(ts, nil)
								}
								continue
							}
							t := f(x, l, i)
							if seqSort != "" {
								ts = append(ts, env.filled(b, i, t))
							}
							switch {
							case b == nil:
							case b.Sort == SStr:
								t = Concat(b, t)
							default:
								t = SeqCat(b.Sort, b, t)
							}
							ts = append(ts, t)
						}
					}
				}
				return ts
			}})
		}
	}
	return out
}
