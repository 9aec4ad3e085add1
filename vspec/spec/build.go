package spec

import (
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"
)

// Weight is the size of a tree; parentheses count less than other nodes.
//
//spec:opaque
func Weight(n *Node) int {
	if n == nil {
		return 0
	}
	w := 2
	if n.Type == miniquery.ParenthesesExpressionType {
		w = 1
	}
	return w + Weight(n.Expression) + Weight(n.Left) + Weight(n.Op) + Weight(n.Right) + WeightFrom(n.Params, 0) + WeightFrom(n.Array, 0)
}

//spec:opaque
func WeightFrom(xs []*Node, i int) int {
	if i >= len(xs) {
		return 0
	}
	return Weight(xs[i]) + WeightFrom(xs, i+1)
}

// ValueOf is the value of a literal or of a list of literals.
//
//spec:opaque
func ValueOf(n *Node) any {
	switch n.ValueType {
	case miniquery.IntValueType:
		return n.Int
	case miniquery.StringValueType:
		return n.Str
	case miniquery.FloatValueType:
		return n.Float
	case miniquery.BooleanValueType:
		return n.Bool
	case miniquery.ArrayValueType:
		return ValuesFrom(n.Array, 0)
	}
	return nil
}

// ValuesFrom are the values of the elements from i on.
//
//spec:opaque
func ValuesFrom(xs []*Node, i int) []any {
	if i >= len(xs) {
		return nil
	}
	return append([]any{ValueOf(xs[i])}, ValuesFrom(xs, i+1)...)
}

//spec:lemma ValuesFrom
func LValuesFrom(xs []*Node, i int) bool {
	return Or(i < 0, i > len(xs), len(ValuesFrom(xs, i)) == len(xs)-i)
}

// ValueIn is the value of the element j places after i.
//
//spec:opaque
func ValueIn(xs []*Node, i, j int) any {
	if i >= len(xs) {
		return nil
	}
	if j <= 0 {
		return ValueOf(xs[i])
	}
	return ValueIn(xs, i+1, j-1)
}

//spec:lemma ValueIn
func LValueIn(xs []*Node, i, j int) bool {
	if Or(i < 0, j < 0, i+j >= len(xs)) {
		return true
	}
	return And(ValueIn(xs, i, j) == ValueOf(xs[i+j]), ValuesFrom(xs, i)[j] == ValueIn(xs, i, j))
}

// OpText is the spelling of an operator that Build uses.
func OpText(op string) string {
	switch op {
	case "gte":
		return ">="
	case "gt":
		return ">"
	case "eq":
		return "=="
	case "neq":
		return "!="
	case "lt":
		return "<"
	case "lte":
		return "<="
	case "and":
		return "&&"
	case "or":
		return "||"
	}
	return op
}

// LiteralText is the text of a literal.
func LiteralText(n *Node) string {
	switch n.ValueType {
	case miniquery.IntValueType:
		return strconv.Itoa(n.Int)
	case miniquery.BooleanValueType:
		if n.Bool {
			return "true"
		}
		return "false"
	case miniquery.StringValueType:
		if strings.ContainsRune(n.Str, '"') {
			return "'" + n.Str + "'"
		}
		return "\"" + n.Str + "\""
	}
	return "null"
}

// BuildText is the text of a query tree.
//
//spec:opaque
func BuildText(n *Node) string {
	switch n.Type {
	case miniquery.ValueNodeType:
		if n.ValueType == miniquery.ArrayValueType {
			return "[" + BuildFrom(n.Array, 0) + "]"
		}
		return LiteralText(n)
	case miniquery.OperationNodeType:
		return OpText(n.Operation)
	case miniquery.IdentifierNodeType:
		return n.Name
	case miniquery.ReferenceNodeType:
		return JoinFrom(n.Names, 0, ".")
	case miniquery.ParenthesesExpressionType:
		return "(" + BuildText(n.Expression) + ")"
	case miniquery.NotExpressionType:
		return "not " + BuildText(n.Expression)
	case miniquery.FunctionExpressionType:
		return n.Name + "(" + BuildFrom(n.Params, 0) + ")"
	case miniquery.PredicatesExpressionType:
		return BuildText(n.Left) + " " + BuildText(n.Op)
	case miniquery.BetweenExpressionType:
		return BuildText(n.Left) + " " + BuildText(n.Op) + " " + BuildText(n.Params[0]) + " and " + BuildText(n.Params[1])
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return BuildText(n.Left) + " " + BuildText(n.Op) + " " + BuildText(n.Right)
	}
	return ""
}

// BuildFrom is the text of the elements from i on, separated by commas.
//
//spec:opaque
func BuildFrom(xs []*Node, i int) string {
	if i >= len(xs) {
		return ""
	}
	if i == len(xs)-1 {
		return BuildText(xs[i])
	}
	return BuildText(xs[i]) + "," + BuildFrom(xs, i+1)
}

// BuildRest is the text of the elements from i on, with a comma before each one
// that is not the first of the list.
//
//spec:opaque
func BuildRest(xs []*Node, i int) string {
	if i >= len(xs) {
		return ""
	}
	if i == 0 {
		return BuildText(xs[i]) + BuildRest(xs, i+1)
	}
	return "," + BuildText(xs[i]) + BuildRest(xs, i+1)
}

//spec:lemma BuildRest
func LBuildRest(xs []*Node, i int) bool {
	if Or(i <= 0, i >= len(xs)) {
		return Or(i < 0, BuildRest(xs, i) == BuildFrom(xs, i))
	}
	return BuildRest(xs, i) == ","+BuildFrom(xs, i)
}

// JoinFrom is the texts from i on, separated by sep.
//
//spec:opaque
func JoinFrom(xs []string, i int, sep string) string {
	if i >= len(xs) {
		return ""
	}
	if i == len(xs)-1 {
		return xs[i]
	}
	return xs[i] + sep + JoinFrom(xs, i+1, sep)
}

// JoinWith is the texts from i on and e at the end, separated by sep.
//
//spec:opaque
func JoinWith(xs []string, i int, sep string, e string) string {
	if i >= len(xs) {
		return e
	}
	return xs[i] + sep + JoinWith(xs, i+1, sep, e)
}

//spec:lemma JoinWith
func LJoinWith(xs []string, i int, sep string, e string) bool {
	s := JoinWith(xs, i, sep, e)
	if Or(i < 0, i > len(xs)) {
		return true
	}
	if i == len(xs) {
		return And(s == e, s == JoinFrom(append(xs, e), i, sep))
	}
	return And(s == JoinFrom(xs, i, sep)+sep+e, s == JoinFrom(append(xs, e), i, sep))
}

// Blank: s holds nothing but white space.
//
//spec:extern
func Blank(s string) bool { return strings.TrimSpace(s) == "" }

// Conj is the conjunction of the queries from i on that are not blank; more tells
// if one was written before.
//
//spec:opaque
func Conj(qs []string, i int, more bool) string {
	if i >= len(qs) {
		return ""
	}
	if Blank(qs[i]) {
		return Conj(qs, i+1, more)
	}
	if more {
		return " and (" + qs[i] + ")" + Conj(qs, i+1, true)
	}
	return "(" + qs[i] + ")" + Conj(qs, i+1, true)
}

// LConj: a conjunction that goes on is one that starts, after a separator.
//
//spec:lemma Conj
func LConj(qs []string, i int, more bool) bool {
	return Or(!more,
		And(Conj(qs, i, false) == "", Conj(qs, i, true) == ""),
		And(Conj(qs, i, false) != "", Conj(qs, i, true) == " and "+Conj(qs, i, false)))
}

// Joined is the conjunction of queries; a single query is left as it is.
func Joined(qs []string) string {
	if len(qs) == 1 {
		return qs[0]
	}
	return Conj(qs, 0, false)
}
