// Package gspec specifies how a query is applied to a gorm statement.
package gspec

import (
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"
	"gorm.io/gorm"
	"gorm.io/gorm/schema"
	"vspec/spec"
)

type Node = miniquery.Node

// Quote is a column name in the quotes of the dialect.
//
//spec:extern
func Quote(db *gorm.DB, name string) string {
	var b strings.Builder
	db.QuoteTo(&b, name)
	return b.String()
}

// Fold: the names are equal but for the case of letters.
//
//spec:extern
func Fold(a, b string) bool { return strings.EqualFold(a, b) }

// HasColumn: the name stands for a column.
//
//spec:opaque
func HasColumn(s *schema.Schema, name string) bool {
	if s.FieldsByDBName[name] != nil {
		return true
	}
	if f := s.FieldsByName[name]; f != nil {
		if f.DBName != "" {
			return true
		}
	}
	return HasFolded(s.Fields, 0, name)
}

// Column is the column a name stands for: by its own name, by the name of its
// field, by the first field whose name differs in case only.
//
//spec:opaque
func Column(s *schema.Schema, name string) string {
	if s.FieldsByDBName[name] != nil {
		return name
	}
	if f := s.FieldsByName[name]; f != nil {
		if f.DBName != "" {
			return f.DBName
		}
	}
	return Folded(s.Fields, 0, name)
}

//spec:opaque
func HasFolded(fs []*schema.Field, i int, name string) bool {
	if i >= len(fs) {
		return false
	}
	if spec.And(fs[i].DBName != "", Fold(fs[i].Name, name)) {
		return true
	}
	return HasFolded(fs, i+1, name)
}

//spec:opaque
func Folded(fs []*schema.Field, i int, name string) string {
	if i >= len(fs) {
		return ""
	}
	if spec.And(fs[i].DBName != "", Fold(fs[i].Name, name)) {
		return fs[i].DBName
	}
	return Folded(fs, i+1, name)
}

// RefOK: the reference is a field of a relation.
//
//spec:opaque
func RefOK(s *schema.Schema, rel, name string) bool {
	r := s.Relationships.Relations[rel]
	if r == nil {
		return false
	}
	return HasColumn(r.FieldSchema, name)
}

// RefName is the qualified column of a reference.
//
//spec:opaque
func RefName(s *schema.Schema, rel, name string) string {
	return rel + "." + Column(s.Relationships.Relations[rel].FieldSchema, name)
}

// OK: gorm can express the query.
//
//spec:opaque
func OK(s *schema.Schema, n *Node) bool {
	switch n.Type {
	case miniquery.ValueNodeType, miniquery.OperationNodeType:
		return true
	case miniquery.IdentifierNodeType:
		return HasColumn(s, n.Name)
	case miniquery.ReferenceNodeType:
		return spec.And(len(n.Names) == 2, RefOK(s, n.Names[0], n.Names[1]))
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return OK(s, n.Expression)
	case miniquery.FunctionExpressionType:
		return spec.And(n.Name == "date", OKFrom(s, n.Params, 0))
	case miniquery.PredicatesExpressionType:
		return spec.And(OK(s, n.Left), OK(s, n.Op))
	case miniquery.BetweenExpressionType:
		return spec.And(OK(s, n.Left), OK(s, n.Op), OK(s, n.Params[0]), OK(s, n.Params[1]))
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return spec.And(OK(s, n.Left), OK(s, n.Op), OK(s, n.Right))
	}
	return false
}

//spec:opaque
func OKFrom(s *schema.Schema, xs []*Node, i int) bool {
	if i >= len(xs) {
		return true
	}
	return spec.And(OK(s, xs[i]), OKFrom(s, xs, i+1))
}

// Op is the SQL spelling of an operator.
func Op(op string) string {
	switch op {
	case "gt":
		return ">"
	case "gte":
		return ">="
	case "eq":
		return "="
	case "neq":
		return "<>"
	case "lt":
		return "<"
	case "lte":
		return "<="
	}
	return op
}

// Text is the condition.
//
//spec:opaque
func Text(db *gorm.DB, s *schema.Schema, n *Node) string {
	switch n.Type {
	case miniquery.ValueNodeType:
		return "?"
	case miniquery.OperationNodeType:
		return Op(n.Operation)
	case miniquery.IdentifierNodeType:
		return Quote(db, Column(s, n.Name))
	case miniquery.ReferenceNodeType:
		return Quote(db, RefName(s, n.Names[0], n.Names[1]))
	case miniquery.ParenthesesExpressionType:
		return "(" + Text(db, s, n.Expression) + ")"
	case miniquery.NotExpressionType:
		return "not " + Text(db, s, n.Expression)
	case miniquery.FunctionExpressionType:
		return "date(" + TextFrom(db, s, n.Params, 0) + ")"
	case miniquery.PredicatesExpressionType:
		return Text(db, s, n.Left) + " " + Text(db, s, n.Op)
	case miniquery.BetweenExpressionType:
		return Text(db, s, n.Left) + " " + Text(db, s, n.Op) + " " + Text(db, s, n.Params[0]) + " and " + Text(db, s, n.Params[1])
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return Text(db, s, n.Left) + " " + Text(db, s, n.Op) + " " + Text(db, s, n.Right)
	}
	return ""
}

// TextFrom is the text of the arguments from i on, a comma before each but the first.
//
//spec:opaque
func TextFrom(db *gorm.DB, s *schema.Schema, xs []*Node, i int) string {
	if i >= len(xs) {
		return ""
	}
	if i == 0 {
		return Text(db, s, xs[i]) + TextFrom(db, s, xs, i+1)
	}
	return ", " + Text(db, s, xs[i]) + TextFrom(db, s, xs, i+1)
}

// Vals are the bound values, in the order of the placeholders.
//
//spec:opaque
func Vals(n *Node) []any {
	switch n.Type {
	case miniquery.ValueNodeType:
		return []any{spec.ValueOf(n)}
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return Vals(n.Expression)
	case miniquery.FunctionExpressionType:
		return ValsFrom(n.Params, 0)
	case miniquery.PredicatesExpressionType:
		return Vals(n.Left)
	case miniquery.BetweenExpressionType:
		return append(append(append([]any{}, Vals(n.Left)...), Vals(n.Params[0])...), Vals(n.Params[1])...)
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return append(append([]any{}, Vals(n.Left)...), Vals(n.Right)...)
	}
	return nil
}

//spec:opaque
func ValsFrom(xs []*Node, i int) []any {
	if i >= len(xs) {
		return nil
	}
	return append(append([]any{}, Vals(xs[i])...), ValsFrom(xs, i+1)...)
}

// Joins are the relations that are joined, when those of seen are joined already.
//
//spec:opaque
func Joins(n *Node, seen []string) []string {
	switch n.Type {
	case miniquery.ReferenceNodeType:
		if spec.Has(seen, n.Names[0]) {
			return seen
		}
		return append(append([]string{}, seen...), n.Names[0])
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return Joins(n.Expression, seen)
	case miniquery.FunctionExpressionType:
		return JoinsFrom(n.Params, 0, seen)
	case miniquery.PredicatesExpressionType:
		return Joins(n.Left, seen)
	case miniquery.BetweenExpressionType:
		return Joins(n.Params[1], Joins(n.Params[0], Joins(n.Left, seen)))
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return Joins(n.Right, Joins(n.Left, seen))
	}
	return seen
}

//spec:opaque
func JoinsFrom(xs []*Node, i int, seen []string) []string {
	if i >= len(xs) {
		return seen
	}
	return JoinsFrom(xs, i+1, Joins(xs[i], seen))
}

// Join is the statement with a relation joined.
//
//spec:extern
func Join(db *gorm.DB, rel string) *gorm.DB { return db.Joins(rel) }

// Where is the statement with a condition.
//
//spec:extern
func Where(db *gorm.DB, text string, vals []any) *gorm.DB { return db.Where(text, vals...) }

// JoinDB is the statement with the relations joined that are not in seen.
//
//spec:opaque
func JoinDB(n *Node, seen []string, db *gorm.DB) *gorm.DB {
	switch n.Type {
	case miniquery.ReferenceNodeType:
		if spec.Has(seen, n.Names[0]) {
			return db
		}
		return Join(db, n.Names[0])
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return JoinDB(n.Expression, seen, db)
	case miniquery.FunctionExpressionType:
		return JoinDBFrom(n.Params, 0, seen, db)
	case miniquery.PredicatesExpressionType:
		return JoinDB(n.Left, seen, db)
	case miniquery.BetweenExpressionType:
		s1 := Joins(n.Left, seen)
		return JoinDB(n.Params[1], Joins(n.Params[0], s1), JoinDB(n.Params[0], s1, JoinDB(n.Left, seen, db)))
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return JoinDB(n.Right, Joins(n.Left, seen), JoinDB(n.Left, seen, db))
	}
	return db
}

//spec:opaque
func JoinDBFrom(xs []*Node, i int, seen []string, db *gorm.DB) *gorm.DB {
	if i >= len(xs) {
		return db
	}
	return JoinDBFrom(xs, i+1, Joins(xs[i], seen), JoinDB(xs[i], seen, db))
}

// Names are the columns of the condition in order, qualified by their relation.
//
//spec:opaque
func Names(s *schema.Schema, n *Node) []string {
	switch n.Type {
	case miniquery.IdentifierNodeType:
		return []string{Column(s, n.Name)}
	case miniquery.ReferenceNodeType:
		return []string{RefName(s, n.Names[0], n.Names[1])}
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return Names(s, n.Expression)
	case miniquery.FunctionExpressionType:
		return NamesFrom(s, n.Params, 0)
	case miniquery.PredicatesExpressionType:
		return Names(s, n.Left)
	case miniquery.BetweenExpressionType:
		return append(append(append([]string{}, Names(s, n.Left)...), Names(s, n.Params[0])...), Names(s, n.Params[1])...)
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return append(append([]string{}, Names(s, n.Left)...), Names(s, n.Right)...)
	}
	return nil
}

//spec:opaque
func NamesFrom(s *schema.Schema, xs []*Node, i int) []string {
	if i >= len(xs) {
		return nil
	}
	return append(append([]string{}, Names(s, xs[i])...), NamesFrom(s, xs, i+1)...)
}

// Keyword: the text is an operator in its SQL spelling, or punctuation.
func Keyword(t string) bool {
	return spec.Or(t == "", t == " ", t == ",", t == ", ", t == "(", t == ")", t == "not ", t == " and ", t == ">", t == ">=", t == "=", t == "<>", t == "<", t == "<=", t == "and", t == "or",
		t == "like", t == "not like", t == "in", t == "not in", t == "between", t == "not between",
		t == "is null", t == "is not null", t == "is true", t == "is not true", t == "is false", t == "is not false")
}

// IsColumn: the schema has a column of that name.
func IsColumn(s *schema.Schema, name string) bool { return s.FieldsByDBName[name] != nil }

// IsRefColumn: the relation has a column of that name.
func IsRefColumn(s *schema.Schema, rel, name string) bool {
	r := s.Relationships.Relations[rel]
	if r == nil {
		return false
	}
	return IsColumn(r.FieldSchema, name)
}

// Wired is the statement with a query applied.
//
//spec:extern
func Wired(db *gorm.DB, query string) *gorm.DB { panic("specification only") }

// ScopeOK: every query from i on that is not blank is valid by itself.
//
//spec:opaque
func ScopeOK(qs []string, i int) bool {
	if i >= len(qs) {
		return true
	}
	return spec.And(spec.Or(spec.Blank(qs[i]), spec.Valid(qs[i])), ScopeOK(qs, i+1))
}
