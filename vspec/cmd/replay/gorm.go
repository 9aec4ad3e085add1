package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"
	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"
	"vspec/gspec"
	"vspec/spec"
)

// quotes is a dialect with quotes that no query contains by accident.
type quotes struct{ open, shut string }

func (quotes) Name() string { return "quotes" }
func (quotes) Initialize(db *gorm.DB) error {
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{})
	return nil
}
func (quotes) Migrator(*gorm.DB) gorm.Migrator                     { return nil }
func (quotes) DataTypeOf(*schema.Field) string                     { return "" }
func (quotes) DefaultValueOf(*schema.Field) clause.Expression      { return clause.Expr{SQL: "DEFAULT"} }
func (quotes) BindVarTo(w clause.Writer, _ *gorm.Statement, _ any) { _ = w.WriteByte('?') }
func (quotes) Explain(sql string, vars ...any) string              { return sql }
func (q quotes) QuoteTo(w clause.Writer, s string) {
	for i, p := range strings.Split(s, ".") {
		if i > 0 {
			_ = w.WriteByte('.')
		}
		_, _ = w.WriteString(q.open + p + q.shut)
	}
}

type (
	gProfile struct {
		ID      int
		UserID  int
		Name    string
		Nick    string `gorm:"column:user_name"`
		Zip     string `gorm:"column:Age"`
		Hidden  string `gorm:"-"`
		GUserID int
	}
	gCompany struct {
		ID        int
		Name      string
		FullName  string
		CreatedAt time.Time
		Age       int `gorm:"column:years"`
	}
	gPet struct {
		ID      int
		GUserID int
		Name    string
		Owner   *gUser `gorm:"foreignKey:GUserID"`
	}
	gBase struct {
		CreatedAt time.Time
		Note      string
	}
	gUser struct {
		ID        int
		Name      string
		Age       int
		UserName  string
		FullName  string
		Swap      int `gorm:"column:other"` // crossed with the next
		Other     int `gorm:"column:swap"`
		Abc       int `gorm:"column:first"`
		ABC       int `gorm:"column:second"`
		AbC       int `gorm:"-"`
		Index     int `gorm:"column:idx"`
		INDEX     int `gorm:"-"`
		Ignored   int `gorm:"-"`
		A         int `gorm:"column:A"`
		B         int `gorm:"column:b_col"`
		X1        int
		Date      time.Time `gorm:"column:date"`
		Nullable  bool
		Andy      string
		Not1      string `gorm:"column:the order"`
		Base      gBase  `gorm:"embedded"`
		Ext       gBase  `gorm:"embedded;embeddedPrefix:ext_"`
		CompanyID int
		Company   gCompany
		Boss      *gCompany `gorm:"foreignKey:CompanyID"`
		Profile   gProfile
		Pets      []gPet
		Friends   []gUser `gorm:"many2many:friends"`
	}
	gPlain struct {
		A string
		B string `gorm:"column:a_b"`
		N int
		T *string `gorm:"column:N"`
	}
	// gWide has few columns and many cases.
	gWide struct {
		NAME    string `gorm:"column:c1"`
		Name    string `gorm:"column:c2"`
		NaMe    string `gorm:"column:name_"`
		Profile *gPlain2
		ID      int
	}
	gPlain2 struct {
		ID      int
		GWideID int
		NAME    string `gorm:"-"`
		NAme    string `gorm:"column:p1"`
		NamE    string `gorm:"column:p2"`
	}
)

var (
	gormDB    *gorm.DB
	gormNames = []string{
		"id", "ID", "Id", "name", "Name", "NAME", "nAmE", "age", "Age", "user_name", "UserName", "username", "USERNAME", "full_name", "FullName", "fullName", "swap", "Swap", "other", "Other", "SWAP",
		"Abc", "ABC", "AbC", "abc", "aBC", "first", "second", "Index", "INDEX", "index", "idx", "Ignored", "ignored", "A", "a", "B", "b", "b_col", "a_b", "X1", "x1", "Date", "date", "DATE", "Nullable", "nullable", "andy", "not1",
		"created_at", "CreatedAt", "createdAt", "note", "Note", "ext_note", "ext_created_at", "company_id", "CompanyID", "Company", "company", "Profile", "Pets", "no_such", "N", "n", "T", "t", "c1", "c2", "name_", "NaMe",
	}
	gormRels   = []string{"Company", "Boss", "Profile", "Pets", "Friends", "company", "profile", "NoSuch", "Name", "Owner"}
	gormRelCol = []string{"name", "Name", "NAME", "id", "ID", "user_name", "Nick", "nick", "NICK", "Zip", "zip", "age", "Age", "AGE", "years", "hidden", "Hidden", "full_name", "FullName", "created_at", "no_such", "gUserID", "p1", "p2", "NamE"}
)

func openGorm() *gorm.DB {
	if gormDB == nil {
		db, err := gorm.Open(quotes{"⟦", "⟧"}, &gorm.Config{DryRun: true, SkipDefaultTransaction: true, Logger: logger.Discard})
		if err != nil {
			panic(err)
		}
		gormDB = db
	}
	return gormDB.Session(&gorm.Session{NewDB: true})
}

// gormEnv is the statement a query is applied to.
func gormEnv(env int) (db *gorm.DB, model any) {
	db = openGorm()
	switch env % 8 {
	case 0, 1, 2:
		model = &gUser{}
	case 3:
		model = &gPlain{}
	case 4:
		model = &gWide{}
	case 5:
		model = &gProfile{}
	case 6:
		model = &gPet{}
	case 7:
		model = nil
	}
	if env%64 == 63 {
		model = new(int) // no schema
	}
	if model != nil {
		db = db.Model(model)
	} else {
		db = db.Table("t")
	}
	switch env / 64 % 4 {
	case 1:
		db = db.Where("1 = ?", 1)
	case 2:
		db = db.Session(&gorm.Session{})
	case 3:
		if model != nil {
			_ = db.Statement.Parse(model)
		}
	}
	return db, model
}

type gormState struct {
	Wheres  []clause.Expression
	Joins   []string
	Err     error
	Clauses []string
	Rest    string
}

func stateOf(db *gorm.DB) gormState {
	var s gormState
	st := db.Statement
	for k, c := range st.Clauses {
		s.Clauses = append(s.Clauses, k)
		if w, ok := c.Expression.(clause.Where); ok && k == "WHERE" {
			s.Wheres = w.Exprs
		}
	}
	sort.Strings(s.Clauses)
	rv := reflect.ValueOf(st).Elem().FieldByName("Joins")
	for i := 0; i < rv.Len(); i++ {
		j := rv.Index(i)
		s.Joins = append(s.Joins, j.FieldByName("Name").String())
		if on := j.FieldByName("On"); on.IsValid() && !on.IsNil() {
			s.Rest += "join with condition "
		}
		if c := j.FieldByName("Conds"); c.IsValid() && c.Len() > 0 {
			s.Rest += "join with condition "
		}
		if k := j.FieldByName("JoinType"); k.IsValid() && k.String() != "" && k.String() != string(clause.LeftJoin) {
			s.Rest += "join " + k.String()
		}
	}
	s.Err = db.Error
	s.Rest += fmt.Sprint(st.Selects, st.Omits, st.ColumnMapping, st.Preloads, st.Distinct, st.Unscoped, st.Vars, st.SQL.String())
	return s
}

// gormWant is what the specification says.
type gormWant struct {
	nothing bool // adds nothing
	fail    bool
	text    string
	vals    []any
	joins   []string
	node    *miniquery.Node
	sch     *schema.Schema
}

var schemas = map[string]*schema.Schema{}

func schemaOf(model any) *schema.Schema {
	k := fmt.Sprintf("%T", model)
	if s, ok := schemas[k]; ok {
		return s
	}
	st := &gorm.Statement{DB: openGorm()}
	if err := st.Parse(model); err != nil {
		schemas[k] = nil
		return nil
	}
	schemas[k] = st.Schema
	return st.Schema
}

func gormExpect(db *gorm.DB, model any, query string) gormWant {
	if query == "" {
		return gormWant{nothing: true}
	}
	n, ok := spec.Parse(query)
	if !ok {
		return gormWant{fail: true}
	}
	if model == nil {
		return gormWant{fail: true}
	}
	sch := schemaOf(model)
	if sch == nil || !gspec.OK(sch, n) {
		return gormWant{fail: true, sch: sch}
	}
	return gormWant{text: gspec.Text(db, sch, n), vals: gspec.Vals(n), joins: gspec.Joins(n, nil), node: n, sch: sch}
}

func scopeExpect(db *gorm.DB, model any, queries []string) gormWant {
	for _, q := range queries {
		if strings.TrimSpace(q) == "" {
			continue
		}
		if _, ok := spec.Parse(q); !ok {
			return gormWant{fail: true}
		}
	}
	return gormExpect(db, model, spec.Joined(queries))
}

type gormRun struct {
	before, after gormState
	want          gormWant
	text          string
	vals          []any
	added         int // conditions
}

func runGorm(c Case, scope bool) gormRun {
	db, model := gormEnv(c.Env)
	var r gormRun
	r.before = stateOf(db)
	r.before.Wheres = append([]clause.Expression{}, r.before.Wheres...)
	var out *gorm.DB
	switch {
	case scope:
		r.want = scopeExpect(db, model, c.Queries)
		out = gormq.MiniQuery{Query: append([]string{}, c.Queries...)}.Scope(db)
	case c.Env/256%2 == 1:
		r.want = gormExpect(db, model, c.Queries[0])
		out = gormq.ApplyMiniQuery(c.Queries[0])(db)
	default:
		r.want = gormExpect(db, model, c.Queries[0])
		out = gormq.WireMiniQuery(db, c.Queries[0])
	}
	r.after = stateOf(out)
	r.added = len(r.after.Wheres) - len(r.before.Wheres)
	if r.added > 0 {
		if e, ok := r.after.Wheres[len(r.after.Wheres)-1].(clause.Expr); ok {
			r.text, r.vals = e.SQL, e.Vars
		} else {
			r.text = fmt.Sprintf("%T", r.after.Wheres[len(r.after.Wheres)-1])
		}
	}
	if r.after.Err == nil {
		accepted++
	}
	return r
}

func (r gormRun) show() (expected, actual string) {
	if r.want.fail {
		expected = "an error"
	} else {
		expected = fmt.Sprintf("%s %#v joins %v", r.want.text, r.want.vals, r.want.joins)
	}
	return expected, fmt.Sprintf("%s %#v joins %v, %d conditions added, error %v", r.text, r.vals, r.after.Joins, r.added, r.after.Err)
}

func (r gormRun) bad(what string) *Finding {
	e, a := r.show()
	return &Finding{What: what, Expected: e, Actual: a}
}

var safeToken = regexp.MustCompile(`^(⟦[^⟦⟧]*⟧(\.⟦[^⟦⟧]*⟧)*|\?|[(),]|[ ]|<>|>=|<=|[<>=]|not|and|or|between|like|in|is|null|true|false|date)`)
var columnToken = regexp.MustCompile(`⟦[^⟦⟧]*⟧(\.⟦[^⟦⟧]*⟧)*`)

// columnsOf are the quoted names that may occur.
func columnsOf(s *schema.Schema) map[string]bool {
	out := map[string]bool{}
	for _, f := range s.Fields {
		if f.DBName != "" {
			out["⟦"+f.DBName+"⟧"] = true
		}
	}
	for name, r := range s.Relationships.Relations {
		for _, f := range r.FieldSchema.Fields {
			if f.DBName != "" {
				out["⟦"+name+"⟧.⟦"+f.DBName+"⟧"] = true
			}
		}
	}
	return out
}

func checkC09(r gormRun) *Finding {
	if r.after.Err != nil || r.added == 0 || r.want.nothing {
		return nil
	}
	if r.want.sch == nil || r.want.node == nil {
		return nil // C12
	}
	cols := columnsOf(r.want.sch)
	marks := 0
	for s := r.text; s != ""; {
		t := safeToken.FindString(s)
		if t == "" {
			return r.bad(fmt.Sprintf("the condition contains %q", clip(s, 40)))
		}
		if strings.HasPrefix(t, "⟦") && !cols[t] {
			return r.bad("the condition contains the column " + t + ", which the schema does not have")
		}
		if t == "?" {
			marks++
		}
		s = s[len(t):]
	}
	if marks != len(r.vals) {
		return r.bad("the number of placeholders is not the number of values")
	}
	if !reflect.DeepEqual(nilSlices(r.vals), nilSlices(gspec.Vals(r.want.node))) {
		return r.bad("the bound values are not the literals")
	}
	return nil
}

// nilSlices makes empty lists equal.
func nilSlices(vs []any) []any {
	var out []any
	for _, v := range vs {
		if s, ok := v.([]any); ok && len(s) == 0 {
			v = []any(nil)
		}
		out = append(out, v)
	}
	return out
}

func checkC10(r gormRun) *Finding {
	if r.want.nothing {
		if r.added != 0 || r.after.Err != nil || fmt.Sprint(r.after.Joins) != fmt.Sprint(r.before.Joins) {
			return r.bad("the empty query adds something")
		}
		return nil
	}
	if r.want.fail || r.after.Err != nil {
		return nil
	}
	// names are the matter of C11
	blind := func(s string) string { return columnToken.ReplaceAllString(s, "⟦⟧") }
	switch {
	case r.added != 1:
		return r.bad("the condition is not added once")
	case blind(r.text) != blind(r.want.text):
		return r.bad("the condition is another")
	case !reflect.DeepEqual(nilSlices(r.vals), nilSlices(r.want.vals)):
		return r.bad("the values are others")
	case r.after.Rest != r.before.Rest || len(r.after.Clauses) > 1 || len(r.after.Clauses) == 1 && r.after.Clauses[0] != "WHERE":
		return r.bad("something else is added")
	case !reflect.DeepEqual(append([]clause.Expression{}, r.after.Wheres[:len(r.before.Wheres)]...), r.before.Wheres):
		return r.bad("the conditions that were there are changed")
	}
	return nil
}

func checkC11(r gormRun) *Finding {
	if r.want.fail && r.after.Err == nil && !r.want.nothing && r.added > 0 && r.want.sch != nil {
		return r.bad("a name that stands for nothing is accepted")
	}
	if r.want.fail || r.want.nothing || r.after.Err != nil {
		if !r.want.fail && !r.want.nothing {
			return r.bad("a name of the model does not resolve")
		}
		return nil
	}
	if fmt.Sprint(columnToken.FindAllString(r.text, -1)) != fmt.Sprint(columnToken.FindAllString(r.want.text, -1)) {
		return r.bad("the columns are others")
	}
	a, b := append([]string{}, r.after.Joins...), append(append([]string{}, r.before.Joins...), r.want.joins...)
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return r.bad("the joins are others")
	}
	return nil
}

func checkC12(r gormRun) *Finding {
	if r.want.nothing {
		if r.after.Err != nil {
			return r.bad("an error for the empty query")
		}
		return nil
	}
	if r.want.fail {
		if r.after.Err == nil {
			return r.bad("no error is recorded")
		}
		if r.added != 0 {
			return r.bad("a condition is added although there is an error")
		}
		return nil
	}
	if r.after.Err != nil {
		return r.bad("an error for a valid query")
	}
	return nil
}

func checkC13(r gormRun) *Finding {
	if r.want.nothing {
		if r.added != 0 || r.after.Err != nil {
			return r.bad("a scope without queries adds something")
		}
		return nil
	}
	if r.want.fail {
		if r.after.Err == nil || r.added != 0 {
			return r.bad("a scope with an invalid query is applied")
		}
		return nil
	}
	a, b := append([]string{}, r.after.Joins...), append(append([]string{}, r.before.Joins...), r.want.joins...)
	sort.Strings(a)
	sort.Strings(b)
	switch {
	case r.after.Err != nil:
		return r.bad("an error for a valid scope")
	case r.added != 1 || r.text != r.want.text || !reflect.DeepEqual(nilSlices(r.vals), nilSlices(r.want.vals)) || fmt.Sprint(a) != fmt.Sprint(b):
		return r.bad("the scope is not the conjunction of its queries")
	}
	return nil
}

// gormGen makes queries with names of the models.
func gormGen(g *gen) {
	if g.names[0] != gormNames[0] {
		g.names = append(append([]string{}, gormNames...), g.names...)
		g.rels, g.relCols = gormRels, gormRelCol
		g.few = len(gormNames)
	}
}

func gormCase(g *gen) Case {
	gormGen(g)
	var s string
	switch g.n(8) {
	case 0:
		s = g.mutate(g.query())
	case 1:
		s = g.query()
	default:
		s = g.named(3)
	}
	return Case{[]string{s}, gormPick(g)}
}

func gormPick(g *gen) int {
	if g.n(3) > 0 {
		return g.n(2)
	}
	return g.n(512)
}

func gormScope(g *gen) Case {
	gormGen(g)
	n := g.n(4)
	if g.n(20) == 0 {
		n = g.n(12)
	}
	c := Case{[]string{}, gormPick(g)}
	for ; n > 0; n-- {
		var s string
		switch g.n(10) {
		case 0:
			s = g.pick("", " ", "\t", "\n", "\r\n ", " ", " ", "\v", "\f", "\u0085", "\x00", "-- c", "()", ")", "(", "name=1) or (1=1", "id=1 -- c", "id=1 --", "id=1 //", "id=1 or 1=1", "(id=1", "id=1)")
		case 1:
			s = g.mutate(g.named(2))
		default:
			s = g.named(2)
		}
		c.Queries = append(c.Queries, s)
	}
	return c
}

func init() {
	var fixed []Case
	for _, q := range []string{"", " ", "a = 1", "Profile.name = 'x' and Profile.name = 'y'", "Company.name = 1 or Profile.name = 2", "Profile.name.x = 1", "date(created_at) = '2020-01-01'", "date(created_at, 1, Company.name) > 1", "now() > 1", "id in (1,2,3) and id not in ()", "not id is null", "nothere = 1", "Company.nothere = 1", "1=1", "true", "id"} {
		for e := 0; e < 8; e++ {
			fixed = append(fixed, Case{[]string{q}, e}, Case{[]string{q}, e + 64}, Case{[]string{q}, e + 128}, Case{[]string{q}, e + 192})
		}
		fixed = append(fixed, Case{[]string{q}, 63})
	}
	for _, n := range gormNames {
		for e := 0; e < 8; e++ {
			fixed = append(fixed, Case{[]string{n + " = 1"}, e})
		}
	}
	for _, r := range gormRels {
		for _, n := range gormRelCol {
			fixed = append(fixed, Case{[]string{r + "." + n + " = 1"}, 0}, Case{[]string{r + "." + n + " = 1"}, 4}, Case{[]string{r + "." + n + " = 1"}, 6})
		}
	}
	mk := func(check func(r gormRun) *Finding) *checker {
		return &checker{gen: gormCase, fixed: fixed, run: func(c Case) *Finding { return check(runGorm(c, false)) }}
	}
	checkers["C09"] = mk(checkC09)
	checkers["C10"] = mk(checkC10)
	checkers["C11"] = mk(checkC11)
	checkers["C12"] = mk(checkC12)
	var scopes []Case
	for _, q := range [][]string{{}, {""}, {" "}, {"", ""}, {"id=1", ""}, {"id=1 or id=2", "name='x'"}, {"id=1) or (id=2", "name=1"}, {"id=1 -- c", "name=1"}, {"id=1", " ", "name is null"}, {"Profile.name=1", "Profile.name=2"}} {
		for e := 0; e < 8; e++ {
			scopes = append(scopes, Case{q, e})
		}
	}
	checkers["C13"] = &checker{gen: gormScope, fixed: scopes, run: func(c Case) *Finding { return checkC13(runGorm(c, true)) }}
}
