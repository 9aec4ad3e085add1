package spec

import "github.com/wenerme/go-miniquery/miniquery"

// Elems are the elements of a list from i on.
//
//spec:opaque
func Elems(xs []*Node, i int) []*Node {
	if i >= len(xs) {
		return nil
	}
	return append([]*Node{xs[i]}, Elems(xs, i+1)...)
}

// Kids are the children of a node, in the order they are written.
func Kids(n *Node) []*Node {
	switch n.Type {
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return []*Node{n.Expression}
	case miniquery.PredicatesExpressionType:
		return []*Node{n.Left, n.Op}
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return []*Node{n.Left, n.Op, n.Right}
	case miniquery.BetweenExpressionType:
		return append([]*Node{n.Left, n.Op}, Elems(n.Params, 0)...)
	case miniquery.FunctionExpressionType:
		return Elems(n.Params, 0)
	case miniquery.ValueNodeType:
		if n.ValueType == miniquery.ArrayValueType {
			return Elems(n.Array, 0)
		}
	}
	return nil
}

// Callback is the name of the callback for a type of node.
func Callback(t miniquery.NodeType) string {
	switch t {
	case miniquery.ValueNodeType:
		return "ValueNode"
	case miniquery.OperationNodeType:
		return "OperationNode"
	case miniquery.IdentifierNodeType:
		return "IdentifierNode"
	case miniquery.ReferenceNodeType:
		return "ReferenceNode"
	case miniquery.ParenthesesExpressionType:
		return "ParenthesesExpression"
	case miniquery.CompareExpressionType:
		return "BinaryExpression"
	case miniquery.LogicExpressionType:
		return "LogicExpression"
	case miniquery.PredicatesExpressionType:
		return "PredicatesExpression"
	case miniquery.NotExpressionType:
		return "NotExpression"
	case miniquery.BetweenExpressionType:
		return "BetweenExpression"
	case miniquery.FunctionExpressionType:
		return "FunctionExpression"
	}
	return ""
}
