package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program: the packages of the repository and the
// specification package.
type World struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	specPkg *ssa.Package
	specs   map[*ssa.Package]bool // the packages with specifications
	opaqueS map[*ssa.Function]bool
	globals map[*ssa.Global]Value
	lemmas  map[string][]*ssa.Function // lemmas by the specification function they are about
	trigger map[string]string
	specDoc map[string]string
	extern  map[*ssa.Function]bool   // specification functions without a definition in logic
	allOf   map[string]*ssa.Function // list predicates: the predicate on the elements
	rank    map[string]int           // declaration order of specification functions
}

func loadWorld(dir string, patterns ...string) *World {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
		Dir: dir,
		Env: os.Environ(),
	}
	cfg.Mode &^= packages.NeedDeps
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	for _, p := range ps {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	}
	if bad {
		fatal("the packages do not compile")
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, specs: map[*ssa.Package]bool{}, pkgs: map[string]*ssa.Package{}, opaqueS: map[*ssa.Function]bool{}, globals: map[*ssa.Global]Value{}, lemmas: map[string][]*ssa.Function{}, specDoc: map[string]string{}, extern: map[*ssa.Function]bool{}, allOf: map[string]*ssa.Function{}, rank: map[string]int{}}
	for i, p := range ps {
		w.pkgs[strings.TrimPrefix(p.PkgPath, modPath)] = sps[i]
		if strings.HasPrefix(p.PkgPath, "vspec/") {
			if p.PkgPath == "vspec/spec" {
				w.specPkg = sps[i]
			}
			w.specs[sps[i]] = true
			w.readSpecDirectives(p, sps[i])
		}
	}
	return w
}

// readSpecDirectives finds the functions marked //spec:opaque and the lemmas.
func (w *World) readSpecDirectives(p *packages.Package, sp *ssa.Package) {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			fn := sp.Func(fd.Name.Name)
			w.rank[specName(fn)] = int(fd.Pos())
			if fd.Doc == nil {
				continue
			}
			full := func(name string) string { return specName(sp.Func(strings.TrimSpace(name))) }
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//spec:opaque") {
					w.opaqueS[fn] = true
				}
				if strings.HasPrefix(c.Text, "//spec:extern") {
					w.opaqueS[fn] = true
					w.extern[fn] = true
				}
				if r, ok := strings.CutPrefix(c.Text, "//spec:all "); ok {
					w.opaqueS[fn] = true
					w.allOf[specName(fn)] = sp.Func(strings.TrimSpace(r))
				}
				if r, ok := strings.CutPrefix(c.Text, "//spec:lemma "); ok {
					w.lemmas[full(r)] = append(w.lemmas[full(r)], fn)
				}
			}
		}
	}
}

// specName is the name of a specification function, with its package unless that
// is the one all units use.
func specName(fn *ssa.Function) string {
	if p := fn.Pkg.Pkg.Path(); p != "vspec/spec" {
		return strings.TrimPrefix(p, "vspec/") + "." + fn.Name()
	}
	return fn.Name()
}

func (w *World) isSpec(fn *ssa.Function) bool       { return fn.Pkg != nil && w.specs[fn.Pkg] }
func (w *World) isOpaqueSpec(fn *ssa.Function) bool { return w.opaqueS[fn] }

func (w *World) fn(name string) *ssa.Function {
	pkg, f, _ := strings.Cut(name, ".")
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(f)
}

// method finds a method by package, type and name.
func (w *World) method(pkg, typ, name string, ptr bool) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	var rt types.Type = t.Type()
	if ptr {
		rt = types.NewPointer(rt)
	}
	return w.prog.LookupMethod(rt, p.Pkg, name)
}

// global gives the meaning of a package level variable: maps that are only
// filled by their initializer are constants.
func (w *World) global(st *State, g *ssa.Global) Value {
	if v, ok := w.globals[g]; ok {
		return v
	}
	v := w.globalInit(g)
	w.globals[g] = v
	return v
}

func (w *World) globalInit(g *ssa.Global) Value {
	elem := g.Type().(*types.Pointer).Elem()
	name := strings.ReplaceAll(g.String(), modPath, "")
	if len(g.Pkg.Func("init").Blocks) == 0 {
		return constPtr{OpaqueVal{"global " + name}}
	}
	var init ssa.Value
	stores := 0
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg != g.Pkg && !(fn.Parent() != nil && fn.Parent().Pkg == g.Pkg) {
			continue
		}
		isInit := fn.Name() == "init" && fn.Signature.Recv() == nil
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					if ins.Addr == g {
						stores++
						if isInit {
							init = ins.Val
						}
					}
				case *ssa.MapUpdate:
					if u, ok := ins.Map.(*ssa.UnOp); ok && u.X == g {
						stores += 2
					}
				case *ssa.Call:
					for _, a := range ins.Call.Args {
						if u, ok := a.(*ssa.UnOp); ok && u.X == g {
							if b, ok := ins.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
								stores += 2
							}
						}
					}
				}
			}
		}
	}
	if stores == 0 {
		if a, ok := elem.Underlying().(*types.Array); ok {
			if s, ok := w.constArray(g, a, nil); ok {
				return constPtr{s}
			}
			return constPtr{OpaqueVal{"global " + name}}
		}
		return constPtr{zero(elem)}
	}
	if u, ok := init.(*ssa.UnOp); ok && stores == 1 {
		a, ok1 := elem.Underlying().(*types.Array)
		l, ok2 := u.X.(*ssa.Alloc)
		if ok1 && ok2 {
			if s, ok := w.constArray(l, a, g); ok {
				return constPtr{s}
			}
		}
	}
	if stores != 1 || init == nil {
		return constPtr{OpaqueVal{"assigned global " + name}}
	}
	switch v := init.(type) {
	case *ssa.MakeMap:
		m := constMap{elem: elem.Underlying().(*types.Map).Elem()}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				k, ok1 := r.Key.(*ssa.Const)
				c, ok2 := r.Value.(*ssa.Const)
				if !ok1 || !ok2 {
					return constPtr{OpaqueVal{"global " + name}}
				}
				m.keys = append(m.keys, constVal(k).(TermVal).T)
				m.vals = append(m.vals, constVal(c))
			case *ssa.Store, *ssa.DebugRef:
			default:
				return constPtr{OpaqueVal{"global " + name}}
			}
		}
		return constPtr{m}
	case *ssa.Const:
		return constPtr{constVal(v)}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			s := f.String()
			for _, a := range v.Call.Args {
				if c, ok := a.(*ssa.Const); ok {
					s += " " + c.Value.ExactString()
				}
			}
			return constPtr{OpaqueVal{s}}
		}
	}
	return constPtr{OpaqueVal{"global " + name}}
}

// constArray is an array whose elements are set by its initializer alone: in the
// array itself or in one that is copied to it.
func (w *World) constArray(g ssa.Value, a *types.Array, copied *ssa.Global) (SeqVal, bool) {
	if a.Len() > 64 || sortOf(a.Elem()) == "" {
		return SeqVal{}, false
	}
	s := zero(a).(SeqVal)
	ok := true
	uses := func(g ssa.Value, set bool) {
		for fn := range ssautil.AllFunctions(w.prog) {
			isInit := fn.Pkg != nil && fn.Name() == "init" && fn.Signature.Recv() == nil
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op != g {
							continue
						}
						switch at := ins.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							ok = ok && isInit && at.Addr == copied
						case *ssa.IndexAddr:
							for _, r := range *at.Referrers() {
								switch r := r.(type) {
								case *ssa.UnOp, *ssa.DebugRef:
								case *ssa.Store:
									i, ok1 := at.Index.(*ssa.Const)
									c, ok2 := r.Val.(*ssa.Const)
									if !set || !isInit || !ok1 || !ok2 || r.Addr != at {
										ok = false
										return
									}
									s.Segs[i.Int64()] = seg{Item: constVal(c)}
								default:
									ok = false
								}
							}
						default:
							ok = false
						}
					}
				}
			}
		}
	}
	uses(g, true)
	if copied != nil {
		uses(copied, false)
	}
	return s, ok
}

// opaqueField models a field of a structure of a dependency: an uninterpreted
// function of the pointer. Such fields are read only.
func (w *World) opaqueField(x *Exec, st *State, p OpaquePtr, owner string, f *types.Var) Value {
	i := strings.LastIndexByte(owner, '/')
	name := "fld_" + owner[i+1:] + "_" + f.Name()
	t := f.Type()
	if c, ok := x.cells[name]; ok { // a field that changes
		return PtrVal{Obj: c}
	}
	if s := sortOf(t); s != "" {
		if notNil[name] {
			st.assume(Not(Eq(UF(name, s, p.T), UF("nilptr", "Ptr"))))
		}
		return constPtr{fromTerm(UF(name, s, p.T), t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return constPtr{OpaquePtr{UF(name, "Ptr", p.T)}}
	case *types.Map:
		return constPtr{opaqueMap{UF(name, "Map", p.T), u}}
	case *types.Struct:
		st.assume(Not(Eq(UF(name, "Ptr", p.T), nilPtr)))
		return OpaquePtr{UF(name, "Ptr", p.T)} // address of an embedded struct
	}
	return constPtr{OpaqueVal{name}}
}

// notNil are the pointers in structures of dependencies that are never nil.
var notNil = map[string]bool{"fld_gorm.DB_Statement": true, "fld_gorm.DB_Config": true, "fld_schema.Relationship_FieldSchema": true, "fld_sqlgraph.NodeSpec_ID": true}

// opaqueMap is a map of a dependency that is only read.
type opaqueMap struct {
	T   *Term
	Typ *types.Map
}

func (v opaqueMap) key(k *keyer) string { return "om" + tkey(v.T) }

var _ = token.NoPos

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "govc: "+format+"\n", a...)
	os.Exit(2)
}
