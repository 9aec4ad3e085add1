package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, res ...Value) []Outcome { return []Outcome{{st, res}} }

func (x *Exec) doCall(fr *frame, p *path, c *ssa.CallCommon, ins ssa.Instruction) []Outcome {
	st := p.st
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(fr, p, a))
	}
	site := &callSite{sig: c.Signature(), instr: ins}
	frames := x.frames
	x.frames = append(x.frames, liveFrame{p.regs, liveAfter(ins)})
	defer func() { x.frames = frames }()
	if c.IsInvoke() {
		recv := x.val(fr, p, c.Value)
		return x.invoke(st, recv, c, args, site)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b.Name(), args, site, fr)
	}
	return x.callValue(st, x.val(fr, p, c.Value), args, site)
}

func (x *Exec) invoke(st *State, recv Value, c *ssa.CallCommon, args []Value, site *callSite) []Outcome {
	site.name = typeName(c.Value.Type()) + "." + c.Method.Name()
	if h, ok := depHandlers[site.name]; ok {
		x.use(site.name)
		return h(x, st, append([]Value{recv}, args...), site)
	}
	if iv, ok := recv.(IfaceVal); ok && iv.Typ != nil {
		fn := x.w.prog.LookupMethod(iv.Typ, c.Method.Pkg(), c.Method.Name())
		if fn != nil {
			return x.callValue(st, FuncVal{Fn: fn}, append([]Value{iv.V}, args...), site)
		}
	}
	if x.opaque != nil {
		if o := x.opaque(x, st, recv, args, site); o != nil {
			return o
		}
	}
	unsup("call of interface method %s", site.name)
	return nil
}

func (x *Exec) callValue(st *State, f Value, args []Value, site *callSite) []Outcome {
	switch f := f.(type) {
	case FuncVal:
		if f.Fn == nil {
			x.oblige(st, False, "no-panic: call of a nil function")
			return nil
		}
		site.fn = f.Fn
		name := shortName(f.Fn)
		if f.Fn.Origin() != nil {
			name = shortName(f.Fn.Origin())
		}
		site.name = name
		if x.lookup != nil {
			if h := x.lookup(x, f.Fn, append(append([]Value{}, f.Bind...), args...)); h != nil {
				return h(x, st, args, site)
			}
		}
		if h, ok := depHandlers[name]; ok {
			x.use(name)
			return h(x, st, args, site)
		}
		if x.spec && x.w.isOpaqueSpec(f.Fn) || !x.spec && x.w.isSpec(f.Fn) {
			return one(st, x.specApply(st, f.Fn, args)...)
		}
		if len(f.Fn.Blocks) == 0 {
			unsup("call of %s", name)
		}
		return x.call(st, f.Fn, f.Bind, args)
	case extFn:
		return f.f(x, st, args)
	case OpaqueFunc:
		if x.opaque != nil {
			if o := x.opaque(x, st, f, args, site); o != nil {
				return o
			}
		}
	}
	unsup("call of %T", f)
	return nil
}

// use notes that the contract of a dependency was assumed.
func (x *Exec) use(name string) {
	if x.spec {
		return
	}
	if x.uses == nil {
		x.uses = map[string]bool{}
	}
	x.uses[name] = true
}

func (x *Exec) builtin(st *State, name string, args []Value, site *callSite, fr *frame) []Outcome {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case SliceVal:
			return one(st, tv(a.Len))
		case TermVal:
			if a.T.Sort == SStr {
				return one(st, tv(StrLen(a.T)))
			}
		case SeqVal:
			return one(st, tv(a.len()))
		case MapVal:
			if a.Obj == 0 {
				return one(st, tv(Int(0)))
			}
			if k := st.heap[a.Obj].Val.(mapObj).Keys; k != nil {
				return one(st, tv(SeqLen(k)))
			}
			unsup("the length of a map with numbers as keys")
		}
	case "cap":
		if a, ok := args[0].(SliceVal); ok {
			c := Fresh("cap", SInt)
			st.assume(Le(a.Len, c))
			return one(st, tv(c))
		}
	case "append":
		a, ok1 := args[0].(SliceVal)
		b, ok2 := args[1].(SliceVal)
		if ok1 && ok2 {
			return x.append(st, a, b)
		}
	case "copy":
		a, ok1 := args[0].(SliceVal)
		b, ok2 := args[1].(SliceVal)
		if ok1 && ok2 {
			if isNilSlice(b) || isNilSlice(a) {
				return one(st, tv(Int(0)))
			}
			if a.Obj != 0 && a.Off == Int(0) && st.simp(Eq(a.Len, b.Len)) == True {
				if segs, ok := st.segs(b); ok {
					c := st.heap[a.Obj].Val.(SeqVal)
					if c.len() == a.Len || st.simp(Eq(c.len(), a.Len)) == True {
						st.heap[a.Obj] = &Obj{st.heap[a.Obj].Typ, SeqVal{c.Elem, segs}}
						return one(st, tv(a.Len))
					}
				}
			}
		}
	case "ssa:wrapnilchk":
		x.oblige(st, Not(x.isNil(st, args[0])), "no-panic: nil receiver")
		return one(st, args[0])
	case "min", "max":
		if len(args) == 2 {
			a, b := x.term(args[0]), x.term(args[1])
			if name == "min" {
				return one(st, tv(Ite(Le(a, b), a, b)))
			}
			return one(st, tv(Ite(Le(a, b), b, a)))
		}
	}
	unsup("builtin %s of %s", name, describe(args[0]))
	return nil
}

// aliased tells if a live slice other than the window [..end) of obj covers cells from end on.
func (x *Exec) aliased(st *State, obj int, end *Term) bool {
	hit := false
	seen := map[int]bool{}
	var visit func(v Value)
	visitObj := func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		if o := st.heap[id]; o != nil {
			visit(o.Val)
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case PtrVal:
			visitObj(v.Obj)
		case StructVal:
			for _, f := range v.Fields {
				visit(f)
			}
		case SeqVal:
			for _, g := range v.Segs {
				if g.Item != nil {
					visit(g.Item)
				}
			}
		case SliceVal:
			if v.Obj == obj && st.simp(Le(Add(v.Off, v.Len), end)) != True && v.Len != Int(0) {
				hit = true
			}
			visitObj(v.Obj)
		case FuncVal:
			for _, b := range v.Bind {
				visit(b)
			}
		case IfaceVal:
			if v.Typ != nil {
				visit(v.V)
			}
		case TupleVal:
			for _, b := range v.Vs {
				visit(b)
			}
		case MapVal:
			visitObj(v.Obj)
		case elemPtr:
			visit(v.s)
		}
	}
	for _, r := range x.roots {
		visit(r)
	}
	for _, f := range x.frames {
		for v := range f.live {
			if r, ok := f.regs[v]; ok {
				visit(r)
			}
		}
	}
	return hit
}

func (x *Exec) append(st *State, a, b SliceVal) []Outcome {
	items, ok := st.segs(b)
	if !ok {
		items = []seg{{Block: st.toTerm(b, types.NewSlice(b.Elem))}}
	}
	if len(items) == 0 {
		return one(st, a)
	}
	n := b.Len
	fresh := func(st *State) Outcome {
		old, ok := st.segs(a)
		if !ok {
			old = []seg{{Block: st.toTerm(a, types.NewSlice(a.Elem))}}
		}
		c := SeqVal{a.Elem, append(append([]seg{}, old...), items...)}
		return Outcome{st, []Value{SliceVal{Obj: st.alloc(types.NewSlice(a.Elem), c), Off: Int(0), Len: Add(a.Len, n), Elem: a.Elem}}}
	}
	if a.Obj == 0 {
		return []Outcome{fresh(st)}
	}
	end := Add(a.Off, a.Len)
	c := st.heap[a.Obj].Val.(SeqVal)
	inPlace := func(st *State) (Outcome, bool) {
		head, ok := c.cut(st, Int(0), end)
		if !ok {
			return Outcome{}, false
		}
		segs := append(append([]seg{}, head...), items...)
		if tail, ok := c.cut(st, Add(end, n), c.len()); ok {
			segs = append(segs, tail...)
		}
		st.heap[a.Obj] = &Obj{st.heap[a.Obj].Typ, SeqVal{c.Elem, segs}}
		return Outcome{st, []Value{SliceVal{Obj: a.Obj, Off: a.Off, Len: Add(a.Len, n), Elem: a.Elem}}}, true
	}
	if !x.spec && x.aliased(st, a.Obj, end) {
		st2 := st.clone()
		o, ok := inPlace(st)
		if !ok {
			unsup("append to a shared array")
		}
		return []Outcome{o, fresh(st2)}
	}
	if x.spec {
		return []Outcome{fresh(st)}
	}
	if o, ok := inPlace(st); ok {
		return []Outcome{o}
	}
	return []Outcome{fresh(st)}
}

// ---- maps

// constMap is a package level map that is only read.
type constMap struct {
	keys []*Term
	vals []Value
	elem types.Type
}

func (v constMap) key(k *keyer) string { return "cm" }

// mapObj is a map object: the keys in the order in which they were set first.
// Of the values nothing is known, but that all of a map to bool are true and all of a
// map to lists have elements.
type mapObj struct {
	Keys *Term
	Typ  *types.Map
}

func (v mapObj) key(k *keyer) string {
	if v.Keys == nil {
		return "mo"
	}
	return "mo" + tkey(v.Keys)
}

func newMapObj(t types.Type) mapObj {
	m := t.Underlying().(*types.Map)
	switch sortOf(m.Key()) {
	case SStr:
		return mapObj{SeqEmpty(seqOf(SStr)), m}
	case SInt:
		return mapObj{nil, m} // nothing is known of what it holds
	}
	unsup("map with keys of type %v", m.Key())
	return mapObj{}
}

// mapHas is presence of a key.
func (x *Exec) mapHas(st *State, m mapObj, k *Term) *Term {
	if m.Keys == SeqEmpty(seqOf(SStr)) {
		return False
	}
	return x.specFn("Has", m.Keys, k)
}

func (x *Exec) lookupMap(st *State, m, k Value, ins *ssa.Lookup) Value {
	switch m := m.(type) {
	case constMap:
		key := st.norm(x.term(k))
		found := False
		res := zero(m.elem)
		for i := len(m.keys) - 1; i >= 0; i-- {
			c := st.simp(Eq(key, m.keys[i]))
			found = Or(c, found)
			if c == True {
				res = m.vals[i]
				continue
			}
			if c == False {
				continue
			}
			res = tv(Ite(c, x.term(m.vals[i]), x.term(res)))
		}
		if ins.CommaOk {
			return TupleVal{[]Value{res, tv(found)}}
		}
		return res
	case MapVal:
		mt := ins.X.Type().Underlying().(*types.Map)
		if m.Obj == 0 {
			if ins.CommaOk {
				return TupleVal{[]Value{zero(mt.Elem()), tv(False)}}
			}
			return zero(mt.Elem())
		}
		o := st.heap[m.Obj].Val.(mapObj)
		if o.Keys == nil {
			v := x.arbitrary(st, mt.Elem(), "mapped")
			if ins.CommaOk {
				return TupleVal{[]Value{v, tv(Fresh("found", SBool))}}
			}
			return v
		}
		key := st.toTerm(k, mt.Key())
		has := x.mapHas(st, o, key)
		var v Value
		switch {
		case sortOf(mt.Elem()) == SBool:
			v = tv(has)
		case st.simp(has) == False:
			v = zero(mt.Elem())
		case sortOf(mt.Elem()) != "":
			t := Fresh("mapped", sortOf(mt.Elem()))
			v = fromTerm(t, mt.Elem())
			if _, ok := mt.Elem().Underlying().(*types.Slice); ok {
				st.assume(Ite(has, Lt(Int(0), SeqLen(t)), Eq(t, SeqEmpty(t.Sort))))
			}
		default:
			v = OpaqueVal{"map value"}
		}
		if ins.CommaOk {
			return TupleVal{[]Value{v, tv(has)}}
		}
		return v
	case opaqueMap:
		// a map of a dependency, to pointers: none of them is nil
		if s, ok := m.Typ.Elem().Underlying().(*types.Struct); ok {
			v := StructVal{Typ: m.Typ.Elem()}
			has := UF("map_has", SBool, m.T, st.toTerm(k, m.Typ.Key()))
			for i := 0; i < s.NumFields(); i++ {
				t := UF("map_get_"+s.Field(i).Name(), sortOf(s.Field(i).Type()), m.T, st.toTerm(k, m.Typ.Key()))
				if t.Sort == "" {
					unsup("lookup in a map to %v", m.Typ.Elem())
				}
				if t.Sort == "Ptr" && !x.spec {
					st.assume(Implies(has, Not(Eq(t, nilPtr))))
				}
				v.Fields = append(v.Fields, fromTerm(t, s.Field(i).Type()))
			}
			if ins.CommaOk {
				return TupleVal{[]Value{v, tv(has)}}
			}
			return v
		}
		if _, ok := m.Typ.Elem().Underlying().(*types.Pointer); !ok {
			unsup("lookup in a map to %v", m.Typ.Elem())
		}
		t := UF("map_get", "Ptr", m.T, st.toTerm(k, m.Typ.Key()))
		v := OpaquePtr{t}
		x.assumeField(st, m.T, t)
		if ins.CommaOk {
			return TupleVal{[]Value{v, tv(Not(x.isNil(st, v)))}}
		}
		return v
	case TermVal:
		if m.T.Sort == SStr { // string index
			i := x.term(k)
			x.oblige(st, And(Le(Int(0), i), Lt(i, StrLen(m.T))), "no-panic: index in range in "+shortName(ins.Parent()))
			if m.T.Op == "str" && i.Op == "int" {
				return tv(Int(int64(m.T.Name[i.I])))
			}
			return tv(UF("byteat", SInt, m.T, i))
		}
	}
	unsup("lookup in %T", m)
	return nil
}

func (x *Exec) mapUpdate(st *State, m, k, v Value) {
	mv, ok := m.(MapVal)
	if !ok {
		unsup("update of %T", m)
	}
	if mv.Obj == 0 {
		x.oblige(st, False, "no-panic: assignment to nil map")
		return
	}
	o := st.heap[mv.Obj].Val.(mapObj)
	if o.Keys == nil {
		return
	}
	key := st.toTerm(k, o.Typ.Key())
	if sortOf(o.Typ.Elem()) == SBool && st.simp(x.term(v)) != True {
		unsup("a map to bool with other values than true")
	}
	if _, ok := o.Typ.Elem().Underlying().(*types.Slice); ok && sortOf(o.Typ.Elem()) != "" && st.simp(Lt(Int(0), SeqLen(st.toTerm(v, o.Typ.Elem())))) != True {
		unsup("a map to lists of which some may be empty")
	}
	keys := Ite(x.mapHas(st, o, key), o.Keys, SeqCat(o.Keys.Sort, o.Keys, SeqUnit(key)))
	st.heap[mv.Obj] = &Obj{st.heap[mv.Obj].Typ, mapObj{keys, o.Typ}}
}

// arbitrary makes an unconstrained value of a type.
func (x *Exec) arbitrary(st *State, t types.Type, name string) Value {
	if typeName(t) == "strings.Builder" {
		return BuilderVal{Fresh(name, SStr)}
	}
	if _, ok := t.Underlying().(*types.Struct); ok && sortOf(t) == "" {
		u := t.Underlying().(*types.Struct)
		v := StructVal{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.Fields = append(v.Fields, x.arbitrary(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return v
	}
	if s := sortOf(t); s != "" {
		f := Fresh(name, s)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			return SliceVal{Obj: st.alloc(t, SeqVal{sl.Elem(), []seg{{Block: f}}}), Off: Int(0), Len: SeqLen(f), Elem: sl.Elem()}
		}
		return fromTerm(f, t)
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		return OpaquePtr{Fresh(name, "Ptr")}
	case *types.Signature:
		return OpaqueFunc{Fresh(name, "Ptr")}
	case *types.Map:
		m := newMapObj(t)
		if m.Keys != nil {
			m.Keys = Fresh(name, m.Keys.Sort)
		}
		return MapVal{st.alloc(t, m)}
	case *types.Interface:
		return OpaqueIface{name}
	case *types.Slice:
		return OpaqueVal{name}
	}
	unsup("arbitrary %v", t)
	return nil
}

// ---- loops

// loopRule is a conserved quantity: its value is the same at every visit of the
// loop head. mk returns candidate terms, evaluated at a loop head.
type loopRule struct {
	name  string
	mk    func(x *Exec, env *loopEnv) []*Term
	group string // rules of a group are alternatives, they are tried in turn
}

type loopEnv struct {
	x    *Exec
	st   *State
	fr   *frame
	h    *ssa.BasicBlock
	regs map[ssa.Value]Value
	ints []*Term // candidate indices at this visit, in a fixed order
	seqs []SliceVal
	nth  int // which visit (0 entry, 1 head, 2 back edge), for diagnostics
}

func (x *Exec) loopEnv(fr *frame, h *ssa.BasicBlock, p *path) *loopEnv {
	e := &loopEnv{x: x, st: p.st, fr: fr, h: h, regs: p.regs}
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := p.regs[ph].(TermVal); ok && t.T.Sort == SInt {
			e.ints = append(e.ints, t.T, Add(t.T, Int(1)))
		}
	}
	for _, v := range sortedLive(fr.info.live[h]) {
		r, ok := p.regs[v]
		if !ok {
			continue
		}
		switch r := r.(type) {
		case SliceVal:
			e.seqs = append(e.seqs, r)
		case PtrVal:
			// a counter that lives in memory
			if o := st0(p.st, r.Obj); o != nil && len(r.Path) == 0 {
				if t, ok := o.Val.(TermVal); ok && t.T.Sort == SInt {
					e.ints = append(e.ints, t.T, Add(t.T, Int(1)))
				}
			}
		}
	}
	e.seqs = append(e.seqs, x.readInLoop(fr, h, p)...)
	return e
}

// readInLoop are the lists that the loop reads from fields of values that it does not change.
func (x *Exec) readInLoop(fr *frame, h *ssa.BasicBlock, p *path) (out []SliceVal) {
	var fields []*ssa.FieldAddr
	seen := map[string]bool{}
	for b := range fr.info.loops[h] {
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			f, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if _, isSlice := u.Type().Underlying().(*types.Slice); !isSlice {
				continue
			}
			if b, ok := f.X.(ssa.Instruction); ok && fr.info.loops[h][b.Block()] {
				continue
			}
			if k := fmt.Sprint(f.X.Name(), f.Field); !seen[k] {
				seen[k] = true
				fields = append(fields, f)
			}
		}
	}
	sort.Slice(fields, func(i, j int) bool {
		if fields[i].X.Name() != fields[j].X.Name() {
			return fields[i].X.Name() < fields[j].X.Name()
		}
		return fields[i].Field < fields[j].Field
	})
	x.dry++
	defer func() { x.dry-- }()
	for _, f := range fields {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			q := p.clone()
			v := x.load(q.st, x.eval(fr, q, f), f.Type().(*types.Pointer).Elem())
			if s, ok := v.(SliceVal); ok {
				if s.Obj != 0 && p.st.heap[s.Obj] == nil {
					p.st.heap[s.Obj] = q.st.heap[s.Obj]
				}
				out = append(out, s)
			}
		}()
	}
	return out
}

func st0(st *State, id int) *Obj { return st.heap[id] }

func sortedLive(m map[ssa.Value]bool) []ssa.Value {
	var out []ssa.Value
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool {
		if len(out[i].Name()) != len(out[j].Name()) {
			return len(out[i].Name()) < len(out[j].Name())
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

// fact is a candidate invariant.
type fact struct {
	mk func(e *loopEnv) *Term
}

type cell struct {
	obj  int
	path []step
}

// diff lists the cells of objects of a that have another value in b.
func diffCells(a, b *State, mark int) []cell {
	var out []cell
	var ids []int
	for id := range a.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		ob := b.heap[id]
		if ob == nil || ob == a.heap[id] {
			continue
		}
		var walk func(va, vb Value, path []step)
		walk = func(va, vb Value, path []step) {
			sa, ok1 := va.(StructVal)
			sb, ok2 := vb.(StructVal)
			if ok1 && ok2 && len(sa.Fields) == len(sb.Fields) {
				for i := range sa.Fields {
					walk(sa.Fields[i], sb.Fields[i], append(path[:len(path):len(path)], step{Field: i}))
				}
				return
			}
			ka := &keyer{st: a, mark: 1 << 60}
			kb := &keyer{st: b, mark: 1 << 60}
			if va.key(ka) != vb.key(kb) {
				out = append(out, cell{id, path})
			}
		}
		walk(a.heap[id].Val, ob.Val, nil)
	}
	return out
}

func (x *Exec) havocVal(st *State, v Value, name string) Value {
	switch v := v.(type) {
	case TermVal:
		return tv(Fresh(name, v.T.Sort))
	case SliceVal:
		es := sortOf(v.Elem)
		if es == "" {
			unsup("loop changes a slice of %v", v.Elem)
		}
		f := Fresh(name, seqOf(es))
		return SliceVal{Obj: st.alloc(types.NewSlice(v.Elem), SeqVal{v.Elem, []seg{{Block: f}}}), Off: Int(0), Len: SeqLen(f), Elem: v.Elem}
	case SeqVal:
		es := sortOf(v.Elem)
		if es == "" {
			unsup("loop changes an array of %v", v.Elem)
		}
		return SeqVal{v.Elem, []seg{{Block: Fresh(name, seqOf(es))}}}
	case BuilderVal:
		return BuilderVal{Fresh(name, SStr)}
	case mapObj:
		if v.Keys == nil {
			return v
		}
		return mapObj{Fresh(name, v.Keys.Sort), v.Typ}
	case OpaquePtr:
		return OpaquePtr{Fresh(name, v.T.Sort)}
	case IfaceVal:
		if v.Typ == nil {
			return MaybeErr{Fresh(name, SBool)}
		}
	case OpaqueIface, MaybeErr:
		return MaybeErr{Fresh(name, SBool)}
	case PtrVal:
		if typeName(st.heap[v.Obj].Typ) == "miniquery.Node" {
			return tv(Fresh(name, SNode))
		}
	case StructVal:
		r := StructVal{Typ: v.Typ}
		for _, f := range v.Fields {
			r.Fields = append(r.Fields, x.havocVal(st, f, name))
		}
		return r
	}
	unsup("loop changes a %T", v)
	return nil
}

func (x *Exec) loop(r *region, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, it item) {
	fr := r.fr
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	runBody := func(p *path) *region {
		rr := &region{fr: fr, body: body, header: h, queue: map[*ssa.BasicBlock][]item{}}
		rr.queue[h] = []item{{p, nil}}
		x.drain(rr)
		return rr
	}
	// a loop with a constant number of iterations is unrolled
	if x.spec || x.unrollable(fr, h, body, it.p) {
		cur := []*path{it.p}
		for n := 0; len(cur) > 0; n++ {
			if n > 300 {
				unsup("loop in %s does not end after %d iterations", shortName(fr.fn), n)
			}
			var next []*path
			for _, p := range cur {
				rr := runBody(p)
				r.rets = append(r.rets, rr.rets...)
				for _, e := range rr.exits {
					x.leave(r, e)
				}
				for _, e := range rr.backs {
					next = append(next, e.p)
				}
			}
			cur = next
		}
		return
	}
	// find what the loop changes
	havPhi := map[*ssa.Phi]bool{}
	var havCell []cell
	havKey := map[string]bool{}
	ghost := &ghostGen{}
	head := func() *path {
		p := it.p.clone()
		for _, ph := range phis {
			if havPhi[ph] {
				p.regs[ph] = x.havocVal(p.st, p.regs[ph], "loop_"+ph.Comment)
			}
		}
		for _, c := range havCell {
			o := p.st.heap[c.obj]
			old := x.getPath(p.st, o.Val, c.path)
			p.st.heap[c.obj] = &Obj{o.Typ, x.setPath(p.st, o.Val, c.path, x.havocVal(p.st, old, "loop"))}
		}
		x.havocParse(ghost, it.p.st, p.st)
		return p
	}
	cellKey := func(c cell) string {
		return PtrVal{c.obj, c.path}.key(&keyer{st: it.p.st, mark: 1 << 60})
	}
	x.dry++
	for round := 0; ; round++ {
		if round > 12 {
			x.dry--
			unsup("no fixed point for the loop in %s", shortName(fr.fn))
		}
		p := head()
		hp := p.clone()
		rr := runBody(p)
		grew := false
		for _, e := range rr.backs {
			for _, ph := range phis {
				ka := &keyer{st: hp.st, mark: 1 << 60}
				kb := &keyer{st: e.p.st, mark: 1 << 60}
				if !havPhi[ph] && hp.regs[ph].key(ka) != e.p.regs[ph].key(kb) {
					havPhi[ph] = true
					grew = true
				}
			}
			for _, c := range diffCells(hp.st, e.p.st, 0) {
				if _, ok := it.p.st.heap[c.obj]; !ok {
					continue
				}
				if k := cellKey(c); !havKey[k] {
					havKey[k] = true
					havCell = append(havCell, c)
					grew = true
				}
			}
			if x.parseChanged(ghost, hp.st, e.p.st) {
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	x.dry--
	// conserved quantities
	p := head()
	base := len(p.st.pc)
	entryEnv := x.loopEnv(fr, h, it.p)
	headEnv := x.loopEnv(fr, h, p)
	type inv struct {
		name        string
		rule, i     int
		entry, head *Term
	}
	var invs []inv
	for ri, rule := range x.loops {
		a := rule.mk(x, entryEnv)
		b := rule.mk(x, headEnv)
		if len(a) != len(b) {
			continue
		}
		for i := range a {
			if a[i] == nil || b[i] == nil || a[i] == b[i] {
				continue
			}
			invs = append(invs, inv{rule.name, ri, i, a[i], b[i]})
		}
	}
	// candidate facts on indices
	var facts []fact
	for i := range headEnv.ints {
		i := i
		facts = append(facts, fact{func(e *loopEnv) *Term { return Le(Int(0), e.ints[i]) }})
		for j := range headEnv.seqs {
			j := j
			facts = append(facts, fact{func(e *loopEnv) *Term { return Le(e.ints[i], e.seqs[j].Len) }})
		}
	}
	for _, ph := range phis {
		ph := ph
		switch v := headEnv.regs[ph].(type) {
		case MaybeErr:
			facts = append(facts, fact{func(e *loopEnv) *Term { return x.isNil(e.st, e.regs[ph]) }})
		case TermVal:
			if v.T.Sort == SBool {
				facts = append(facts,
					fact{func(e *loopEnv) *Term { return x.term(e.regs[ph]) }},
					fact{func(e *loopEnv) *Term { return Not(x.term(e.regs[ph])) }})
			}
		}
	}
	for _, ph := range phis {
		// a variable that has its first value in the first iteration only
		ph := ph
		c, ok := entryEnv.regs[ph].(TermVal)
		if !ok || !c.T.isConst() || c.T.Sort == SInt || headEnv.regs[ph] == entryEnv.regs[ph] {
			continue
		}
		for i := 0; i < len(headEnv.ints); i += 2 {
			i, first := i, entryEnv.ints[i]
			facts = append(facts, fact{func(e *loopEnv) *Term {
				v, ok := e.regs[ph].(TermVal)
				if !ok {
					return nil
				}
				return Eq(Eq(v.T, c.T), Eq(e.ints[i], first))
			}})
		}
		vals := []*Term{c.T}
		for _, e := range ph.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && c.T.Sort == SStr {
				vals = append(vals, x.term(x.val(fr, it.p, k)))
			}
		}
		facts = append(facts, fact{func(e *loopEnv) *Term {
			v, ok := e.regs[ph].(TermVal)
			if !ok {
				return nil
			}
			var is []*Term
			for _, k := range vals {
				is = append(is, Eq(v.T, k))
			}
			return Or(is...)
		}})
	}
	for _, c := range havCell {
		// an array that is filled keeps its length
		c := c
		length := func(st *State) *Term {
			if o := st.heap[c.obj]; o != nil {
				if q, ok := x.getPath(st, o.Val, c.path).(SeqVal); ok {
					return q.len()
				}
			}
			return nil
		}
		if first := length(it.p.st); first != nil {
			facts = append(facts, fact{func(e *loopEnv) *Term {
				if n := length(e.st); n != nil {
					return Eq(n, first)
				}
				return nil
			}})
		}
	}
	facts = append(facts, x.parseFacts()...)
	var fs []fact
	for _, f := range facts {
		if t := f.mk(entryEnv); t == nil || f.mk(headEnv) == nil {
			continue
		} else if it.p.st.simp(t) == True || x.prove(it.p.st, t) {
			fs = append(fs, f)
		}
	}
	// keep the candidates that every iteration preserves
	keep := make([]bool, len(invs))
	for i := range keep {
		keep[i] = true
	}
	keepF := make([]bool, len(fs))
	for i := range keepF {
		keepF[i] = true
	}
	assumeAll := func(q *path) {
		q.st.pc = q.st.pc[:base:base]
		for i, iv := range invs {
			if keep[i] {
				q.st.assume(Eq(iv.head, iv.entry))
			}
		}
		for i, f := range fs {
			if keepF[i] {
				q.st.assume(f.mk(headEnv))
			}
		}
	}
	// of the rules of a group the first is tried alone
	off := make([]bool, len(invs))
	tried := map[string]string{}
	for i, iv := range invs {
		if g := x.loops[iv.rule].group; g != "" {
			if tried[g] == "" {
				tried[g] = iv.name
			}
			off[i] = tried[g] != iv.name
			keep[i] = !off[i]
		}
	}
	more := func() bool {
		alive := map[string]bool{}
		for i, iv := range invs {
			if keep[i] {
				alive[x.loops[iv.rule].group] = true
			}
		}
		any := false
		next := map[string]string{}
		for i, iv := range invs {
			g := x.loops[iv.rule].group
			if off[i] && !alive[g] && (next[g] == "" || next[g] == iv.name) {
				next[g] = iv.name
				off[i], keep[i] = false, true
				any = true
			}
		}
		if any { // facts may hold with the new candidates
			for i := range keepF {
				keepF[i] = true
			}
		}
		return any
	}
	var why string
	for {
		q := p.clone()
		assumeAll(q)
		x.dry++
		rr := runBody(q)
		x.dry--
		dropped := false
		for _, e := range rr.backs {
			be := x.loopEnv(fr, h, e.p)
			for i, f := range fs {
				if t := f.mk(be); keepF[i] && (t == nil || !x.prove(e.p.st, t)) {
					keepF[i] = false
					dropped = true
				}
			}
			for i, iv := range invs {
				if !keep[i] {
					continue
				}
				b := x.loops[iv.rule].mk(x, be)
				if iv.i >= len(b) || b[iv.i] == nil || !x.prove(e.p.st, Eq(b[iv.i], iv.head)) {
					keep[i] = false
					dropped = true
					why = iv.name
				}
			}
		}
		if !dropped && !more() {
			break
		}
	}
	any := false
	for i := range keep {
		any = any || keep[i]
		if keep[i] && x.dry == 0 {
			o := &Obligation{Unit: x.unit, Name: "loop invariant preserved: " + invs[i].name, Goal: True, Trivial: false, Status: "proved", Solver: "z3"}
			x.obls = append(x.obls, o)
		}
	}
	if !any && len(x.loops) > 0 && why != "" && x.dry == 0 {
		// no invariant survives: the loop does not compute what is specified
		x.loopNotes = append(x.loopNotes, "loop in "+shortName(fr.fn)+": invariant not preserved: "+why)
	}
	q := p.clone()
	assumeAll(q)
	hs := q.st.clone()
	rr := runBody(q)
	x.terminates(fr, h, rr.backs, hs, headEnv)
	r.rets = append(r.rets, rr.rets...)
	for _, e := range rr.exits {
		x.leave(r, e)
	}
}

// terminates: every iteration makes progress.
func (x *Exec) terminates(fr *frame, h *ssa.BasicBlock, backs []edge, head *State, he *loopEnv) {
	if x.dry > 0 || len(backs) == 0 {
		return
	}
	where := " in " + shortName(fr.fn)
	if x.parser != nil && x.hook == nil && !x.wholeParse {
		pos := x.cellTerm(head, "position")
		for _, e := range backs {
			x.oblige(e.p.st.clone(), Lt(pos, x.cellTerm(e.p.st, "position")), "a loop of the rule moves on")
		}
		return
	}
	var bes []*loopEnv
	for _, e := range backs {
		bes = append(bes, x.loopEnv(fr, h, e.p))
	}
	for i := 0; i < len(he.ints); i += 2 {
		up, down := true, true
		for _, be := range bes {
			up = up && x.prove(be.st, Lt(he.ints[i], be.ints[i]))
			down = down && x.prove(be.st, And(Lt(be.ints[i], he.ints[i]), Le(Int(0), he.ints[i])))
		}
		bounded := false
		if up {
			for j := range he.seqs {
				ok := true
				for _, be := range bes {
					ok = ok && j < len(be.seqs) && be.seqs[j].Len == he.seqs[j].Len && x.prove(be.st, Le(be.ints[i], he.seqs[j].Len))
				}
				bounded = bounded || ok
			}
		}
		if down || up && bounded {
			x.obls = append(x.obls, &Obligation{Unit: x.unit, Name: "the loop ends" + where, Goal: True, Status: "proved", Solver: "z3"})
			return
		}
	}
	unsup("no measure for the loop%s", where)
}

// leave continues after a loop; phis of the target are already assigned.
func (x *Exec) leave(r *region, e edge) {
	if r.body != nil {
		if e.to == r.header {
			r.backs = append(r.backs, e)
			return
		}
		if !r.body[e.to] {
			r.exits = append(r.exits, e)
			return
		}
	}
	r.queue[e.to] = append(r.queue[e.to], item{e.p, e.from})
}

// unrollable tells if the loop condition is decided by constants at entry.
func (x *Exec) unrollable(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, p *path) bool {
	// the header must end in a branch out of the loop whose condition folds
	x.dry++
	defer func() { x.dry-- }()
	q := p.clone()
	for _, ins := range h.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := q.st.simp(x.term(x.val(fr, q, ins.Cond)))
			return (c == True || c == False) && x.constBound(fr, h, q)
		case *ssa.BinOp, *ssa.UnOp:
			q.regs[ins.(ssa.Value)] = x.eval(fr, q, ins.(ssa.Value))
		case *ssa.Call:
			if b, ok := ins.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				q.regs[ins] = x.builtin(q.st, "len", []Value{x.val(fr, q, ins.Call.Args[0])}, nil, fr)[0].res[0]
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

// constBound: every operand of the loop condition is a constant in this state.
func (x *Exec) constBound(fr *frame, h *ssa.BasicBlock, p *path) bool {
	iff := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		t, ok := x.val(fr, p, o).(TermVal)
		if !ok || !p.st.norm(t.T).isConst() {
			return false
		}
	}
	return true
}
