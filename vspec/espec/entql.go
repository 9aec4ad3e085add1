// Package espec specifies what the queries for ent are.
package espec

import (
	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/miniquery"
	"vspec/spec"
)

type Node = miniquery.Node

// QLOp is the entql operator of an operator, -1 if there is none.
func QLOp(op string) int {
	switch op {
	case "and":
		return int(entql.OpAnd)
	case "or":
		return int(entql.OpOr)
	case "eq":
		return int(entql.OpEQ)
	case "neq":
		return int(entql.OpNEQ)
	case "gt":
		return int(entql.OpGT)
	case "gte":
		return int(entql.OpGTE)
	case "lt":
		return int(entql.OpLT)
	case "lte":
		return int(entql.OpLTE)
	case "in":
		return int(entql.OpIn)
	case "not in":
		return int(entql.OpNotIn)
	}
	return -1
}

// QLPred: the query is a predicate of entql.
//
//spec:opaque
func QLPred(n *Node) bool {
	switch n.Type {
	case miniquery.ParenthesesExpressionType:
		return QLPred(n.Expression)
	case miniquery.NotExpressionType, miniquery.BetweenExpressionType, miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return true
	}
	return false
}

// QLOK: entql can express the query.
//
//spec:opaque
func QLOK(n *Node) bool {
	switch n.Type {
	case miniquery.ValueNodeType, miniquery.IdentifierNodeType:
		return true
	case miniquery.ParenthesesExpressionType:
		return QLOK(n.Expression)
	case miniquery.NotExpressionType:
		return spec.And(QLOK(n.Expression), QLPred(n.Expression))
	case miniquery.BetweenExpressionType:
		return spec.And(QLOK(n.Left), QLOK(n.Params[0]), QLOK(n.Params[1]))
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return spec.And(QLOK(n.Left), QLOK(n.Right), QLOp(n.Op.Operation) >= 0)
	}
	return false
}

func binary(op entql.Op, x, y entql.Expr) entql.Expr { return &entql.BinaryExpr{Op: op, X: x, Y: y} }

// QL is the expression of a query. As the tests of the repository have it, a not
// between is a conjunction, which is wrong (a recorded finding); QLRight has it right.
//
//spec:opaque
func QL(n *Node) entql.Expr {
	switch n.Type {
	case miniquery.ValueNodeType:
		return &entql.Value{V: spec.ValueOf(n)}
	case miniquery.IdentifierNodeType:
		return &entql.Field{Name: n.Name}
	case miniquery.ParenthesesExpressionType:
		return QL(n.Expression)
	case miniquery.NotExpressionType:
		return &entql.UnaryExpr{Op: entql.OpNot, X: QL(n.Expression)}
	case miniquery.BetweenExpressionType:
		if n.Op.Operation == "not between" {
			return binary(entql.OpAnd, binary(entql.OpLT, QL(n.Left), QL(n.Params[0])), binary(entql.OpGT, QL(n.Left), QL(n.Params[1])))
		}
		return binary(entql.OpAnd, binary(entql.OpGTE, QL(n.Left), QL(n.Params[0])), binary(entql.OpLTE, QL(n.Left), QL(n.Params[1])))
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return binary(entql.Op(QLOp(n.Op.Operation)), QL(n.Left), QL(n.Right))
	}
	return nil
}

// QLRight is the expression of a query.
//
//spec:opaque
func QLRight(n *Node) entql.Expr {
	switch n.Type {
	case miniquery.ValueNodeType:
		return &entql.Value{V: spec.ValueOf(n)}
	case miniquery.IdentifierNodeType:
		return &entql.Field{Name: n.Name}
	case miniquery.ParenthesesExpressionType:
		return QLRight(n.Expression)
	case miniquery.NotExpressionType:
		return &entql.UnaryExpr{Op: entql.OpNot, X: QLRight(n.Expression)}
	case miniquery.BetweenExpressionType:
		if n.Op.Operation == "not between" {
			return binary(entql.OpOr, binary(entql.OpLT, QLRight(n.Left), QLRight(n.Params[0])), binary(entql.OpGT, QLRight(n.Left), QLRight(n.Params[1])))
		}
		return binary(entql.OpAnd, binary(entql.OpGTE, QLRight(n.Left), QLRight(n.Params[0])), binary(entql.OpLTE, QLRight(n.Left), QLRight(n.Params[1])))
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return binary(entql.Op(QLOp(n.Op.Operation)), QLRight(n.Left), QLRight(n.Right))
	}
	return nil
}

//spec:lemma QL
func LQL(n *Node) bool {
	_, p := QL(n).(entql.P)
	return spec.Or(!spec.WF(n), !QLOK(n), spec.And(QL(n) != nil, QLPred(n) == p))
}

// QLValid: q is a query that entql can express.
func QLValid(q string) bool {
	return spec.And(spec.Valid(q), QLOK(spec.Tree(q)), QLPred(spec.Tree(q)))
}

// QLAllOK: the queries from i on are empty or can be expressed.
//
//spec:opaque
func QLAllOK(qs []string, i int) bool {
	if i >= len(qs) {
		return true
	}
	return spec.And(spec.Or(qs[i] == "", QLValid(qs[i])), QLAllOK(qs, i+1))
}

// QLApplied are the predicates of the queries from i on, up to the first error.
//
//spec:opaque
func QLApplied(qs []string, i int) []entql.Expr {
	if i >= len(qs) {
		return nil
	}
	if qs[i] == "" {
		return QLApplied(qs, i+1)
	}
	if !QLValid(qs[i]) {
		return nil
	}
	return append([]entql.Expr{QL(spec.Tree(qs[i]))}, QLApplied(qs, i+1)...)
}
