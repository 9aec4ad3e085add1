package espec

import (
	"strconv"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/huandu/xstrings"
	"github.com/wenerme/go-miniquery/miniquery"
	"vspec/spec"
)

// Quoted is a name as an identifier of a dialect.
//
//spec:extern
func Quoted(d, name string) string {
	b := &sql.Builder{}
	b.SetDialect(d)
	return b.Ident(name).String()
}

// Snake is a name in snake case.
//
//spec:extern
func Snake(name string) string { return xstrings.ToSnakeCase(name) }

// Bound is a value as it is bound with a cast: the driver gets the value itself.
func Bound(v any) any { return v }

// SQLOp is the text of an operator with its blanks, "" if ent has none.
func SQLOp(op string) string {
	switch op {
	case "eq":
		return " = "
	case "neq":
		return " <> "
	case "gt":
		return " > "
	case "gte":
		return " >= "
	case "lt":
		return " < "
	case "lte":
		return " <= "
	case "in":
		return " IN "
	case "not in":
		return " NOT IN "
	case "like":
		return " LIKE "
	case "not like":
		return " NOT LIKE "
	case "and":
		return " AND "
	case "or":
		return " OR "
	case "is null":
		return " IS NULL"
	case "is not null":
		return " IS NOT NULL"
	}
	return ""
}

// CastOf is the type a placeholder is cast to, "" for none.
func CastOf(v any) string {
	switch v.(type) {
	case int:
		return "::int"
	case bool:
		return "::bool"
	case float64:
		return "::double precision"
	}
	return ""
}

// Mark is the placeholder of an argument, when there are k before it.
func Mark(d string, k int) string {
	if d == dialect.Postgres {
		return "$" + strconv.Itoa(k+1)
	}
	return "?"
}

// ValueMark is the placeholder of a value.
func ValueMark(d string, cast bool, v any, k int) string {
	if spec.And(cast, d == dialect.Postgres) {
		return Mark(d, k) + CastOf(v)
	}
	return Mark(d, k)
}

// EdgeCond: n can be the condition on the end of an edge.
func EdgeCond(n *Node) bool {
	switch n.Type {
	case miniquery.ValueNodeType, miniquery.IdentifierNodeType, miniquery.ReferenceNodeType, miniquery.OperationNodeType:
		return false
	}
	return true
}

// EdgeOK: the arguments of has_edge name an edge, and a condition on its end.
func EdgeOK(g *sqlgraph.Node, ps []*Node) bool {
	if len(ps) == 0 || len(ps) > 2 || g == nil || ps[0].Type != miniquery.IdentifierNodeType {
		return false
	}
	edge, ok := g.Edges[ps[0].Name]
	if !ok {
		return false
	}
	if len(ps) == 1 {
		return true
	}
	return EdgeCond(ps[1]) && SQLOK(edge.To, ps[1])
}

// SQLOK: the query can be rendered for a node of the graph.
//
//spec:opaque
func SQLOK(g *sqlgraph.Node, n *Node) bool {
	switch n.Type {
	case miniquery.ValueNodeType, miniquery.IdentifierNodeType:
		return true
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return SQLOK(g, n.Expression)
	case miniquery.FunctionExpressionType:
		switch n.Name {
		case "date":
			return len(n.Params) == 1 && SQLOK(g, n.Params[0])
		case "has_edge":
			return EdgeOK(g, n.Params)
		}
		return false
	case miniquery.PredicatesExpressionType:
		return SQLOp(n.Op.Operation) != "" && SQLOK(g, n.Left)
	case miniquery.BetweenExpressionType:
		return SQLOK(g, n.Left) && SQLOK(g, n.Params[0]) && SQLOK(g, n.Params[1])
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return SQLOK(g, n.Left) && SQLOp(n.Op.Operation) != "" && SQLOK(g, n.Right)
	}
	return false
}

// StepText is the text that ent makes of an existence test over an edge, with a
// condition on the neighbours or without.
//
//spec:extern
func StepText(d, schema, table, fromTable, fromColumn, toTable, toColumn string, rel sqlgraph.Rel, inverse bool, edgeTable string, columns []string, with bool, cond string) string {
	sel := sql.Dialect(d).Select().From(sql.Table(table).Schema(schema))
	step := sqlgraph.NewStep(sqlgraph.From(fromTable, fromColumn), sqlgraph.To(toTable, toColumn), sqlgraph.Edge(rel, inverse, edgeTable, columns...))
	if with {
		sqlgraph.HasNeighborsWith(sel, step, func(s *sql.Selector) {
			s.Where(sql.P(func(b *sql.Builder) { b.WriteString(cond) }))
		})
	} else {
		sqlgraph.HasNeighbors(sel, step)
	}
	b := &sql.Builder{}
	b.SetDialect(d)
	b.Join(sel.P())
	return b.String()
}

// EdgeText is the text of has_edge.
func EdgeText(d string, cast, right bool, g *sqlgraph.Node, ps []*Node, k int) string {
	edge := g.Edges[ps[0].Name]
	cond := ""
	if len(ps) == 2 {
		cond = SQLText(d, cast, right, edge.To, ps[1], k)
		if ps[1].Type == miniquery.LogicExpressionType {
			cond = "(" + cond + ")"
		}
	}
	return StepText(d, g.Schema, g.Table, g.Table, g.ID.Column, edge.To.Table, edge.To.ID.Column, edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns, len(ps) == 2, cond)
}

// ListText is the text of the elements of a list from i on.
//
//spec:opaque
func ListText(d string, vs []any, i, k int) string {
	if i >= len(vs) {
		return ""
	}
	sep := ""
	if i > 0 {
		sep = ", "
	}
	if vs[i] == nil {
		return sep + "NULL" + ListText(d, vs, i+1, k)
	}
	return sep + Mark(d, k) + ListText(d, vs, i+1, k+1)
}

// ListArgs are the arguments of the elements of a list from i on.
//
//spec:opaque
func ListArgs(vs []any, i int) []any {
	if i >= len(vs) {
		return []any{}
	}
	if vs[i] == nil {
		return ListArgs(vs, i+1)
	}
	return append([]any{vs[i]}, ListArgs(vs, i+1)...)
}

func operandText(d string, cast, right bool, g *sqlgraph.Node, n *Node, k int) string {
	if n.Type == miniquery.BetweenExpressionType {
		return "(" + SQLText(d, cast, right, g, n, k) + ")"
	}
	return SQLText(d, cast, right, g, n, k)
}

// SQLText is the text of a query, k arguments after the start. right tells
// whether a not between is a disjunction, as it should be.
//
//spec:opaque
func SQLText(d string, cast, right bool, g *sqlgraph.Node, n *Node, k int) string {
	switch n.Type {
	case miniquery.ValueNodeType:
		if n.ValueType == miniquery.ArrayValueType {
			return "(" + ListText(d, spec.ValuesFrom(n.Array, 0), 0, k) + ")"
		}
		if v := spec.ValueOf(n); v != nil || cast {
			return ValueMark(d, cast, v, k)
		}
		return "NULL"
	case miniquery.IdentifierNodeType:
		return Quoted(d, Snake(n.Name))
	case miniquery.ParenthesesExpressionType:
		return "(" + SQLText(d, cast, right, g, n.Expression, k) + ")"
	case miniquery.NotExpressionType:
		return "NOT " + operandText(d, cast, right, g, n.Expression, k)
	case miniquery.FunctionExpressionType:
		if n.Name == "date" {
			return "DATE(" + SQLText(d, cast, right, g, n.Params[0], k) + ")"
		}
		return EdgeText(d, cast, right, g, n.Params, k)
	case miniquery.PredicatesExpressionType:
		return operandText(d, cast, right, g, n.Left, k) + SQLOp(n.Op.Operation)
	case miniquery.BetweenExpressionType:
		k1 := k + len(SQLArgs(cast, g, n.Left))
		k2 := k1 + len(SQLArgs(cast, g, n.Params[0]))
		k3 := k2 + len(SQLArgs(cast, g, n.Left))
		t1 := SQLText(d, cast, right, g, n.Left, k)
		t2 := SQLText(d, cast, right, g, n.Params[0], k1)
		t3 := SQLText(d, cast, right, g, n.Left, k2)
		t4 := SQLText(d, cast, right, g, n.Params[1], k3)
		if n.Op.Operation != "not between" {
			return t1 + " >= " + t2 + " AND " + t3 + " <= " + t4
		}
		if right {
			return "(" + t1 + " < " + t2 + " OR " + t3 + " > " + t4 + ")"
		}
		return t1 + " < " + t2 + " AND " + t3 + " > " + t4
	case miniquery.CompareExpressionType:
		k1 := k + len(SQLArgs(cast, g, n.Left))
		return operandText(d, cast, right, g, n.Left, k) + SQLOp(n.Op.Operation) + operandText(d, cast, right, g, n.Right, k1)
	case miniquery.LogicExpressionType:
		k1 := k + len(SQLArgs(cast, g, n.Left))
		return SQLText(d, cast, right, g, n.Left, k) + SQLOp(n.Op.Operation) + SQLText(d, cast, right, g, n.Right, k1)
	}
	return ""
}

// SQLArgs are the arguments of a query.
//
//spec:opaque
func SQLArgs(cast bool, g *sqlgraph.Node, n *Node) []any {
	switch n.Type {
	case miniquery.ValueNodeType:
		if n.ValueType == miniquery.ArrayValueType {
			return ListArgs(spec.ValuesFrom(n.Array, 0), 0)
		}
		v := spec.ValueOf(n)
		if cast {
			return []any{Bound(v)}
		}
		if v != nil {
			return []any{v}
		}
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return SQLArgs(cast, g, n.Expression)
	case miniquery.FunctionExpressionType:
		if n.Name == "date" {
			return SQLArgs(cast, g, n.Params[0])
		}
		if len(n.Params) == 2 {
			return SQLArgs(cast, g.Edges[n.Params[0].Name].To, n.Params[1])
		}
	case miniquery.PredicatesExpressionType:
		return SQLArgs(cast, g, n.Left)
	case miniquery.BetweenExpressionType:
		a, lo, hi := SQLArgs(cast, g, n.Left), SQLArgs(cast, g, n.Params[0]), SQLArgs(cast, g, n.Params[1])
		return append(append(append(append([]any{}, a...), lo...), a...), hi...)
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return append(append([]any{}, SQLArgs(cast, g, n.Left)...), SQLArgs(cast, g, n.Right)...)
	}
	return []any{}
}
