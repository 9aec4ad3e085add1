package main

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/miniquery"
	"vspec/espec"
	"vspec/spec"
)

func notBetween(n *miniquery.Node) bool {
	if n == nil {
		return false
	}
	if n.Type == miniquery.BetweenExpressionType && n.Op.Operation == "not between" {
		return true
	}
	for _, p := range n.Params {
		if notBetween(p) {
			return true
		}
	}
	return notBetween(n.Left) || notBetween(n.Right) || notBetween(n.Expression)
}

func showExpr(e entql.Expr) string {
	switch e := e.(type) {
	case nil:
		return "-"
	case *entql.UnaryExpr:
		return fmt.Sprintf("%v(%s)", e.Op, showExpr(e.X))
	case *entql.BinaryExpr:
		return fmt.Sprintf("(%s %v %s)", showExpr(e.X), e.Op, showExpr(e.Y))
	case *entql.Field:
		return "field " + e.Name
	case *entql.Value:
		if s, ok := e.V.([]any); ok && len(s) == 0 {
			return "value []"
		}
		return fmt.Sprintf("value %#v", e.V)
	}
	return fmt.Sprintf("%T %v", e, e)
}

// qlWant is what entql should get: an error, nothing or a predicate.
func qlWant(q string) (n *miniquery.Node, fail bool) {
	if q == "" {
		return nil, false
	}
	n, ok := spec.Parse(q)
	if !ok || !espec.QLOK(n) || !espec.QLPred(n) {
		return nil, true
	}
	return n, false
}

func checkC18(c Case) *Finding {
	n, fail := qlWant(c.Queries[0])
	var p entql.P
	var err error
	if c.Env%2 == 0 {
		p, err = entmq.BuildEntQL(c.Queries[0])
	} else {
		p, err = (&entmq.MiniQLToEntQLBuilder{Query: c.Queries[0]}).Build()
	}
	if fail || n == nil || err != nil {
		return nil
	}
	accepted++
	got, pinned, right := showExpr(p), showExpr(espec.QL(n)), showExpr(espec.QLRight(n))
	switch {
	case got == right:
		return nil
	case got == pinned && notBetween(n):
		return &Finding{What: "not between is a conjunction", Expected: right, Actual: got, Known: "not-between"}
	}
	return &Finding{What: "the predicate is another", Expected: right, Actual: got}
}

type whereLog struct{ ps []entql.P }

func (w *whereLog) Where(p entql.P) { w.ps = append(w.ps, p) }

func checkC19(c Case) *Finding {
	var want []string
	fails := false
	for _, q := range c.Queries {
		n, fail := qlWant(q)
		p, err := entmq.BuildEntQL(q)
		p2, err2 := (&entmq.MiniQLToEntQLBuilder{Query: q}).Build()
		switch {
		case fail && (err == nil || err2 == nil):
			return &Finding{What: "no error", Expected: "an error", Actual: showExpr(p)}
		case !fail && (err != nil || err2 != nil):
			return &Finding{What: "an error for a valid query", Actual: fmt.Sprint(err, err2)}
		case fail && (p != nil || p2 != nil):
			return &Finding{What: "a predicate and an error", Actual: showExpr(p)}
		case !fail && n == nil && (p != nil || p2 != nil):
			return &Finding{What: "a predicate for the empty query", Actual: showExpr(p)}
		case !fail && n != nil && (p == nil || p2 == nil):
			return &Finding{What: "neither an error nor a predicate"}
		}
		if fail {
			fails = true
		}
		if p != nil && !fails {
			want = append(want, showExpr(p))
		}
	}
	var log whereLog
	err := entmq.ApplyEntQL(&log, c.Queries)
	var got []string
	for _, p := range log.ps {
		got = append(got, showExpr(p))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return &Finding{What: "other predicates are applied", Expected: fmt.Sprint(want), Actual: fmt.Sprint(got)}
	}
	if (err != nil) != fails {
		return &Finding{What: "the error of a query is not returned, or there is none", Actual: fmt.Sprint(err)}
	}
	if !fails {
		accepted++
	}
	return nil
}

// entGraph is a graph with edges of every kind.
func entGraph() map[string]*sqlgraph.Node {
	node := func(typ, table, id string) *sqlgraph.Node {
		return &sqlgraph.Node{NodeSpec: sqlgraph.NodeSpec{Table: table, ID: &sqlgraph.FieldSpec{Column: id, Type: field.TypeInt}}, Type: typ, Fields: map[string]*sqlgraph.FieldSpec{}}
	}
	ns := map[string]*sqlgraph.Node{"User": node("User", "users", "uid"), "Pet": node("Pet", "pets", "id"), "Group": node("Group", "groups", "gid"), "Card": node("Card", "cards", "id")}
	g := &sqlgraph.Schema{}
	for _, k := range []string{"User", "Pet", "Group", "Card"} {
		g.Nodes = append(g.Nodes, ns[k])
	}
	add := func(name string, rel sqlgraph.Rel, inverse bool, table string, from, to string, cols ...string) {
		g.MustAddE(name, &sqlgraph.EdgeSpec{Rel: rel, Inverse: inverse, Table: table, Columns: cols}, from, to)
	}
	add("pets", sqlgraph.O2M, false, "pets", "User", "Pet", "owner_id")
	add("owner", sqlgraph.M2O, true, "pets", "Pet", "User", "owner_id")
	add("groups", sqlgraph.M2M, false, "user_groups", "User", "Group", "user_id", "group_id")
	add("users", sqlgraph.M2M, true, "user_groups", "Group", "User", "user_id", "group_id")
	add("card", sqlgraph.O2O, false, "cards", "User", "Card", "user_id")
	add("user", sqlgraph.O2O, true, "cards", "Card", "User", "user_id")
	add("friends", sqlgraph.M2M, false, "user_friends", "User", "User", "a_id", "b_id")
	add("children", sqlgraph.O2M, false, "users", "User", "User", "parent_id")
	add("parent", sqlgraph.M2O, true, "users", "User", "User", "parent_id")
	add("userName", sqlgraph.M2O, false, "users", "User", "Group", "name_id")
	return ns
}

var (
	entNodes = entGraph()
	entNames = []string{"a", "b", "id", "ID", "name", "Name", "userName", "user_name", "activityType", "A1b", "createdAt", "aB", "HTTPServer", "x__y", "age", "nullable"}
)

// entEnvironment is what a query is rendered against.
type entEnvironment struct {
	Dialect string
	Cast    bool
	Node    *sqlgraph.Node
}

func (e entEnvironment) render(n *miniquery.Node, k int, right bool) (string, []any) {
	return espec.SQLText(e.Dialect, e.Cast, right, e.Node, n, k), espec.SQLArgs(e.Cast, e.Node, n)
}

func entEnv(env int) entEnvironment {
	return entEnvironment{
		Dialect: []string{dialect.Postgres, dialect.MySQL, dialect.SQLite, ""}[env%4],
		Cast:    env/4%2 == 1,
		Node:    []*sqlgraph.Node{entNodes["User"], entNodes["Pet"], entNodes["Group"], entNodes["Card"], nil}[env/8%5],
	}
}

type entRun struct {
	env   entEnvironment
	start int // arguments before
	n     *miniquery.Node
	ok    bool
	text  string
	args  []any
	err   error
	raw   []any
	pre   string
}

func runEnt(c Case) entRun {
	e := entEnv(c.Env)
	r := entRun{env: e}
	n, ok := spec.Parse(c.Queries[0])
	r.n, r.ok = n, ok && espec.SQLOK(e.Node, n)
	b := &entmq.MiniQLToEntSQLBuilder{QueryString: c.Queries[0], Node: e.Node, DisableTypeCasting: !e.Cast}
	switch c.Env / 40 % 3 {
	case 0:
		b.SetDialect(e.Dialect)
		r.text, r.raw = b.Query()
		r.err = b.Err()
	case 1: // as a part of another query
		out := &sql.Builder{}
		out.SetDialect(e.Dialect)
		out.Arg("before").WriteString(" AND ")
		r.start = 1
		out.Join(b)
		text, args := out.Query()
		head := espec.Mark(e.Dialect, 0) + " AND "
		if !strings.HasPrefix(text, head) || len(args) < 1 || args[0] != "before" {
			r.text = "<damaged> " + text
		} else {
			r.text, r.raw = strings.TrimPrefix(text, head), args[1:]
		}
		r.err = out.Err()
		if r.err == nil {
			r.err = b.Err()
		}
	case 2: // on a builder of the caller
		out := &sql.Builder{}
		out.SetDialect(e.Dialect)
		b.SQLBuilder = out
		b.SetDialect(e.Dialect)
		_, _ = b.Query()
		r.text, r.raw = out.Query()
		r.err = b.Err()
		if r.err == nil {
			r.err = out.Err()
		}
		if r.err != nil {
			r.text, r.raw = "", nil // the builder of the caller keeps what was written
		}
	}
	for _, a := range r.raw {
		if v, ok := a.(driver.Valuer); ok {
			d, err := v.Value()
			if err != nil {
				r.text = "<value with an error> " + r.text
			}
			a = d
		}
		r.args = append(r.args, a)
	}
	if r.err == nil {
		accepted++
	}
	return r
}

func (r entRun) bad(what string) *Finding {
	f := &Finding{What: what, Actual: fmt.Sprintf("%s %#v error %v", r.text, r.args, r.err)}
	if !r.ok {
		f.Expected = "an error"
	} else {
		t, a := r.env.render(r.n, r.start, true)
		f.Expected = fmt.Sprintf("%s %#v", t, a)
	}
	return f
}

// hasEdge tells whether the query uses has_edge.
func hasEdge(n *miniquery.Node) bool {
	if n == nil {
		return false
	}
	if n.Type == miniquery.FunctionExpressionType && n.Name == "has_edge" {
		return true
	}
	for _, p := range n.Params {
		if hasEdge(p) {
			return true
		}
	}
	return hasEdge(n.Left) || hasEdge(n.Right) || hasEdge(n.Expression)
}

// agree compares with the rendering of the specification.
func (r entRun) agree(blind func(string) string, what string) *Finding {
	if !r.ok || r.err != nil {
		return nil
	}
	t1, a1 := r.env.render(r.n, r.start, true)
	t2, a2 := r.env.render(r.n, r.start, false)
	same := func(a, b []any) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }
	switch {
	case blind(r.text) == blind(t1) && same(r.args, a1):
		return nil
	case blind(r.text) == blind(t2) && same(r.args, a2) && notBetween(r.n):
		f := r.bad("not between is a conjunction")
		f.Known = "not-between"
		return f
	}
	return r.bad(what)
}

func exact(s string) string { return s }

// noCasts hides the casts, which are the matter of C16.
var noCasts = strings.NewReplacer("::int", "", "::bool", "", "::double precision", "", "::text", "", "::bigint", "", "::float8", "").Replace

func checkC15(r entRun) *Finding {
	switch {
	case !r.ok && r.err == nil:
		return r.bad("no error is reported")
	case r.ok && r.err != nil:
		return r.bad("an error for a valid query")
	case r.err != nil && (r.text != "" || len(r.raw) > 0):
		return r.bad("SQL although there is an error")
	}
	return nil
}

// boundValues are what is put into the type of bound values, after the first
// thousand environments; no query has all of them.
var boundValues = []any{1, 0, -7, true, false, 1.5, 0.0, "x", "", nil, int64(3), []any{1}}

const boundEnv = 1000

// checkBound gives a value to what is bound for a query, in the dialect.
func checkBound(c Case) *Finding {
	i := c.Env - boundEnv
	v, d := boundValues[i/2%len(boundValues)], []string{dialect.Postgres, dialect.MySQL}[i%2]
	b := &entmq.MiniQLToEntSQLBuilder{QueryString: c.Queries[0]}
	b.SetDialect(d)
	_, args := b.Query()
	for _, a := range args {
		t := reflect.TypeOf(a)
		if t == nil || t.Kind() != reflect.Struct || t.NumField() != 1 || t.Field(0).Type.Kind() != reflect.Interface {
			continue
		}
		n := reflect.New(t)
		*(*any)(n.UnsafePointer()) = v
		if f, ok := n.Elem().Interface().(sql.ParamFormatter); ok {
			want := "$1"
			if d == dialect.Postgres {
				want += espec.CastOf(v)
			}
			if got := f.FormatParam("$1", &sql.StmtInfo{Dialect: d}); got != want {
				return &Finding{What: fmt.Sprintf("the placeholder of %#v in %s is another", v, d), Expected: want, Actual: got}
			}
		}
		if f, ok := n.Elem().Interface().(driver.Valuer); ok {
			if got, err := f.Value(); err != nil || !reflect.DeepEqual(got, v) {
				return &Finding{What: "the driver gets another value", Expected: fmt.Sprintf("%#v", v), Actual: fmt.Sprintf("%#v %v", got, err)}
			}
		}
	}
	return nil
}

func checkC16(r entRun) *Finding {
	if !r.ok || r.err != nil {
		return nil
	}
	t1, _ := r.env.render(r.n, r.start, true)
	if notBetween(r.n) {
		t1, _ = r.env.render(r.n, r.start, false)
	}
	if noCasts(r.text) == noCasts(t1) && r.text != t1 {
		return r.bad("the casts are others")
	}
	// the values behind the arguments
	_, a1 := r.env.render(r.n, r.start, true)
	if len(r.args) == len(a1) && !(len(a1) == 0) && !reflect.DeepEqual(r.args, a1) {
		return r.bad("the value of an argument is another")
	}
	return nil
}

func entGen(g *gen) {
	if g.names[0] != entNames[0] || g.names[1] != entNames[1] || g.few != len(entNames) {
		g.names = append(append([]string{}, entNames...), g.names...)
		g.few = len(entNames)
		g.funcs = []string{"date", "date", "date", "DATE", "now", "has_edge"}
	}
}

// edgeTest is a call of has_edge.
func edgeTest(g *gen, d int) string {
	s := "has_edge(" + g.pick("pets", "pets", "owner", "owner", "groups", "users", "card", "user", "friends", "children", "parent", "userName", "nothere", "'pets'", "pets.x", "Pets", "user_name", "pets()", "groups(1)")
	switch g.n(6) {
	case 0, 1:
	case 2, 3, 4:
		if d > 0 && g.n(3) == 0 {
			s += ", " + edgeTest(g, d-1)
			if g.n(2) == 0 {
				s += g.pick(" and ", " or ") + g.named(1)
			}
		} else {
			s += ", " + g.named(1)
		}
	case 5:
		s += g.pick(", a", ", 1", ", name.x", ", a=1, b=2", ", now()", ", a is true", ", a.b = 1", ", date(a)")
	}
	return s + ")"
}

func entCase(g *gen, edges int) Case {
	entGen(g)
	var s string
	switch {
	case g.n(10) < edges:
		s = edgeTest(g, 2)
		for g.n(3) == 0 {
			s = g.named(1) + g.pick(" and ", " or ") + s
		}
		for g.n(3) == 0 {
			s += g.pick(" and ", " or ") + g.named(1)
		}
		if g.n(5) == 0 {
			s = "not " + s
		}
	case g.n(8) == 0:
		s = g.mutate(g.query())
	case g.n(6) == 0:
		s = g.query()
	default:
		s = g.named(3)
	}
	return Case{[]string{s}, g.n(120)}
}

func init() {
	mk := func(edges int, check func(r entRun) *Finding) *checker {
		k := &checker{gen: func(g *gen) Case { return entCase(g, edges) }, run: func(c Case) *Finding { return check(runEnt(c)) }}
		for _, q := range []string{"1=1", "a", "a is null", "a is true", "a not between 1 and 2", "a between 1 and 'x' and b = 2", "not a between 1 and 2", "(a between 1 and 2) = true", "a in (1,null,'x')", "a in []", "a = null", "a = [1,2]", "date(a)", "date(a, b)", "date()", "a.b = 1", "has_edge()", "has_edge(pets)", "has_edge(pets, a=1 or b=2)", "x = 1 and has_edge(groups, a=1 or b=2) and y = true", "has_edge(owner, a.b=1)", "has_edge(pets, has_edge(owner, a=1))", "a not like 'x%' or b like 'y'", "a = 1.5", "a = true", "now()"} {
			for e := 0; e < 120; e++ {
				k.fixed = append(k.fixed, Case{[]string{q}, e})
			}
		}
		return k
	}
	checkers["C14"] = mk(0, func(r entRun) *Finding {
		if r.n != nil && hasEdge(r.n) {
			return nil // C17
		}
		return r.agree(noCasts, "the SQL is another")
	})
	checkers["C15"] = mk(3, checkC15)
	checkers["C16"] = mk(1, checkC16)
	queries := checkers["C16"].run
	checkers["C16"].run = func(c Case) *Finding {
		if c.Env >= boundEnv {
			return checkBound(c)
		}
		return queries(c)
	}
	for e := 0; e < 2*len(boundValues); e++ {
		checkers["C16"].fixed = append(checkers["C16"].fixed, Case{[]string{"a = 1"}, boundEnv + e})
	}
	checkers["C17"] = mk(9, func(r entRun) *Finding {
		if r.n == nil || !hasEdge(r.n) {
			return nil
		}
		if r.ok && r.err != nil {
			return r.bad("an error for a valid has_edge")
		}
		f := r.agree(exact, "the SQL of has_edge is another")
		if f != nil && f.Known != "" {
			return nil // C14
		}
		return f
	})
	ql := func(g *gen) Case {
		entGen(g)
		c := entCase(g, 0)
		if g.n(8) == 0 {
			c.Queries[0] = ""
		}
		return c
	}
	var fixed []Case
	for _, q := range []string{"", " ", "a", "1", "a>10", "(a>10)", "not a = 1", "not a", "not (a)", "not true", "not (a = 1) and b = 2", "a between 1 and 2", "a not between 1 and 2", "a in [1,2]", "a not in ()", "a is null", "a is true", "a like 'x'", "a not like 'x'", "date(a) = 1", "a.b = 1", "true and false", "a and b", "a = b = c", "(a)", "not not a=1", "a = null"} {
		fixed = append(fixed, Case{[]string{q}, 0}, Case{[]string{q}, 1})
	}
	checkers["C18"] = &checker{gen: ql, run: checkC18, fixed: fixed}
	lists := append([]Case{{Queries: []string{}}}, fixed...)
	for _, a := range []string{"", "a=1", "a", "x(", "b between 1 and 2"} {
		for _, b := range []string{"", "a=2", "b=", "not b=1"} {
			for _, d := range []string{"", "c=3", "f()"} {
				lists = append(lists, Case{[]string{a, b, d}, 0})
			}
		}
	}
	checkers["C19"] = &checker{gen: func(g *gen) Case {
		c := ql(g)
		for n := g.n(4); n > 0; n-- {
			c.Queries = append(c.Queries, ql(g).Queries[0])
		}
		return c
	}, run: checkC19, fixed: lists}
}
