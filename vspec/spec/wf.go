package spec

import "github.com/wenerme/go-miniquery/miniquery"

// IsName: s is an identifier of the grammar: a letter, then letters, digits and
// underscores.
//
//spec:extern
func IsName(s string) bool {
	b := []rune(s)
	return len(b) > 0 && Alpha(b, 0) && NameChars(b, 1, len(b))
}

// NameChars: positions i to j hold letters, digits and underscores.
//
//spec:opaque
func NameChars(b []rune, i, j int) bool {
	if i >= j {
		return true
	}
	return And(Or(Alpha(b, i), Range(b, i, '0', '9'), At(b, i) == '_'), NameChars(b, i+1, j))
}

//spec:all IsName
func AllNames(xs []string) bool {
	for _, x := range xs {
		if !IsName(x) {
			return false
		}
	}
	return true
}

func IsIdent(n *Node) bool {
	return n != nil && And(Same(n, &Node{Type: miniquery.IdentifierNodeType, Name: n.Name}), IsName(n.Name))
}

//spec:all IsIdent
func AllIdents(xs []*Node) bool {
	for _, x := range xs {
		if !IsIdent(x) {
			return false
		}
	}
	return true
}

// IsLiteral: n is a string, an integer, a boolean or null.
func IsLiteral(n *Node) bool {
	return n != nil && And(n.Type == miniquery.ValueNodeType, Or(
		Same(n, &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.StringValueType, Str: n.Str}),
		Same(n, &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.IntValueType, Int: n.Int}),
		Same(n, &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.BooleanValueType, Bool: n.Bool}),
		Same(n, &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.NullValueType}),
	))
}

//spec:all IsLiteral
func AllLiterals(xs []*Node) bool {
	for _, x := range xs {
		if !IsLiteral(x) {
			return false
		}
	}
	return true
}

func IsArray(n *Node) bool {
	return n != nil && And(Same(n, arrayNode(n.Array)), AllLiterals(n.Array))
}

func IsValue(n *Node) bool { return Or(IsLiteral(n), IsArray(n)) }

func IsOp(n *Node) bool { return n != nil && And(Same(n, opNode(n.Operation))) }

func oneOf(s string, xs ...string) bool {
	for _, x := range xs {
		if s == x {
			return true
		}
	}
	return false
}

func IsCompareOp(s string) bool {
	return Or(s == "eq", s == "neq", s == "lt", s == "lte", s == "gt", s == "gte", s == "like", s == "not like")
}

func IsInOp(s string) bool { return Or(s == "in", s == "not in") }

func IsPredicateOp(s string) bool {
	return Or(s == "is null", s == "is true", s == "is false", s == "is not null", s == "is not true", s == "is not false")
}

// IsOperator: n is an operator of the grammar.
func IsOperator(n *Node) bool {
	return n != nil && And(Same(n, opNode(n.Operation)), Or(IsCompareOp(n.Operation), IsInOp(n.Operation), IsPredicateOp(n.Operation),
		n.Operation == "and", n.Operation == "or", n.Operation == "between", n.Operation == "not between"))
}

//spec:all WF
func WFs(xs []*Node) bool {
	for _, x := range xs {
		if !WF(x) {
			return false
		}
	}
	return true
}

// WF: n is a tree of the form the documentation of the nodes gives, with
// nothing else set.
//
//spec:opaque
func WF(n *Node) bool {
	if n == nil {
		return false
	}
	switch n.Type {
	case miniquery.ValueNodeType:
		return IsValue(n)
	case miniquery.IdentifierNodeType:
		return IsIdent(n)
	case miniquery.ReferenceNodeType:
		return And(Same(n, &Node{Type: miniquery.ReferenceNodeType, Names: n.Names}), len(n.Names) >= 2, AllNames(n.Names))
	case miniquery.FunctionExpressionType:
		return And(Same(n, &Node{Type: miniquery.FunctionExpressionType, Name: n.Name, Params: n.Params}), IsName(n.Name), WFs(n.Params))
	case miniquery.ParenthesesExpressionType:
		return And(Same(n, &Node{Type: miniquery.ParenthesesExpressionType, Expression: n.Expression}), WF(n.Expression))
	case miniquery.NotExpressionType:
		return And(Same(n, &Node{Type: miniquery.NotExpressionType, Expression: n.Expression}), WF(n.Expression))
	case miniquery.BetweenExpressionType:
		return And(IsOp(n.Op), len(n.Params) == 2) && And(
			Same(n, betweenNode(n.Left, n.Op.Operation, n.Params[0], n.Params[1])),
			WF(n.Left), IsValue(n.Params[0]), IsValue(n.Params[1]),
			Or(n.Op.Operation == "between", n.Op.Operation == "not between"))
	case miniquery.PredicatesExpressionType:
		return IsOp(n.Op) && And(
			Same(n, &Node{Type: miniquery.PredicatesExpressionType, Left: n.Left, Op: n.Op}),
			WF(n.Left), IsPredicateOp(n.Op.Operation))
	case miniquery.CompareExpressionType:
		return IsOp(n.Op) && And(
			Same(n, compareNode(n.Left, n.Op, n.Right)),
			WF(n.Left), WF(n.Right),
			Or(IsCompareOp(n.Op.Operation), And(IsInOp(n.Op.Operation), IsArray(n.Right))))
	case miniquery.LogicExpressionType:
		return IsOp(n.Op) && And(
			Same(n, logicNode(n.Left, n.Op.Operation, n.Right)),
			WF(n.Left), WF(n.Right),
			Or(n.Op.Operation == "and", n.Op.Operation == "or"))
	}
	return false
}

// notLogic: n is an operand of and and or.
func notLogic(n *Node) bool { return n != nil && And(n.Type != miniquery.LogicExpressionType) }

// LogicAccOK: what was built so far has the form that the next and looks for.
func LogicAccOK(n *Node) bool {
	if n == nil {
		return false
	}
	if n.Type != miniquery.LogicExpressionType {
		return WF(n)
	}
	if !IsOp(n.Op) {
		return false
	}
	l := logicNode(n.Left, n.Op.Operation, n.Right)
	return And(n.Left != nil, Same(n, l), WF(l))
}
