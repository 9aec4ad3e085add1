package main

// rebuild makes a term again from rewritten arguments.
func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.Args[i] {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "<=":
		return le0(linOf(args[0]))
	case "+":
		r := Int(t.I)
		for _, a := range args {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(Int(t.I), args[0])
	case "str.++":
		return Concat(args...)
	case "str.len":
		return StrLen(args[0])
	case "seq.++":
		return SeqCat(t.Sort, args...)
	case "seq.len":
		return SeqLen(args[0])
	case "seq.nth":
		return SeqNth(args[0], args[1])
	case "seq.sub":
		return SeqSub(args[0], args[1], args[2])
	case "sel":
		return Sel(consOf(t), t.Name, int(t.I), t.Sort, args[0])
	case "is":
		return Is(t.Name, args[0])
	}
	return mk(t.Op, t.Name, t.I, t.Sort, args...)
}

// consOf is the constructor a selector belongs to.
func consOf(t *Term) string {
	if r, ok := sortOfRec[t.Args[0].Sort]; ok {
		return r.cons
	}
	for c, f := range anyPayload {
		if f.name == t.Name {
			return c
		}
	}
	for _, c := range exprCons {
		for _, f := range c.fields {
			if f.name == t.Name {
				return c.cons
			}
		}
	}
	return "?"
}

// deep simplifies a term with what the state knows, everywhere inside.
func (s *State) deep(t *Term) *Term {
	memo := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t.ID]; ok {
			return r
		}
		if t.Sort == SBool {
			if b, ok := s.known[t.ID]; ok {
				return Bool(b)
			}
		} else if c, ok := s.eqc[t.ID]; ok {
			return c
		}
		var r *Term
		if t.Op == "ite" {
			c := walk(t.Args[0])
			switch c {
			case True:
				r = walk(t.Args[1])
			case False:
				r = walk(t.Args[2])
			default:
				r = Ite(c, walk(t.Args[1]), walk(t.Args[2]))
			}
		} else if len(t.Args) == 0 {
			r = t
		} else {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = walk(a)
			}
			r = rebuild(t, args)
		}
		if r != t && r.Sort == SBool {
			if b, ok := s.known[r.ID]; ok {
				r = Bool(b)
			}
		}
		memo[t.ID] = r
		return r
	}
	return walk(t)
}

// caseAtom finds a condition to split on, nil if there is none.
func caseAtom(t *Term) *Term {
	seen := map[int]bool{}
	var found *Term
	var atom func(t *Term) *Term
	atom = func(t *Term) *Term {
		switch t.Op {
		case "not", "and", "or":
			return atom(t.Args[0])
		case "ite":
			return atom(t.Args[0])
		case "true", "false":
			return nil
		}
		return t
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "ite" {
			if a := atom(t.Args[0]); a != nil {
				// split on an inner condition first
				walk(a)
				if found == nil {
					found = a
				}
				return
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return found
}

type leaf struct {
	pc   []*Term
	goal *Term
}

// cases splits an obligation on the conditions in its goal; nil if there are
// none or too many.
func cases(pc []*Term, goal *Term) []leaf {
	termMu.Lock()
	defer termMu.Unlock()
	var out []leaf
	ok := true
	var rec func(pc []*Term, goal *Term, depth int)
	rec = func(pc []*Term, goal *Term, depth int) {
		if !ok || goal == True {
			return
		}
		a := caseAtom(goal)
		if a == nil {
			out = append(out, leaf{pc, goal})
			return
		}
		if depth > 8 || len(out) > 40 {
			ok = false
			return
		}
		for _, v := range []*Term{a, Not(a)} {
			st := newState()
			feasible := true
			for _, c := range pc {
				if !st.assume(c) {
					feasible = false
				}
			}
			if !feasible || !st.assume(v) {
				continue
			}
			npc := []*Term{}
			// simplify the path condition with the new fact
			one := newState()
			one.assume(v)
			bad := false
			for _, c := range pc {
				d := one.deep(c)
				if d == False {
					bad = true
				}
				if d != True {
					npc = append(npc, conj(d)...)
				}
			}
			if bad {
				continue
			}
			npc = append(npc, conj(v)...)
			rec(npc, st.deep(goal), depth+1)
		}
	}
	rec(pc, goal, 0)
	if !ok {
		return nil
	}
	return out
}
