package spec

import (
	"strconv"

	"github.com/wenerme/go-miniquery/miniquery"
)

// The grammar of the documentation (miniquery.peg), one function per rule. A
// function takes the text and a position and returns the position after the
// longest match the ordered choice gives, -1 if the rule does not match, and
// the tree of the match. bad tells that an integer of the match is out of range.

// ---- white space and comments

//spec:opaque
func EndOfLine(b []rune, p int) int {
	if Lit(b, p, "\r\n") {
		return p + 2
	}
	if Or(Lit(b, p, "\n"), Lit(b, p, "\r")) {
		return p + 1
	}
	return -1
}

//spec:opaque
func Space(b []rune, p int) int {
	if Or(Lit(b, p, " "), Lit(b, p, "\t")) {
		return p + 1
	}
	return EndOfLine(b, p)
}

//spec:opaque
func CommentTail(b []rune, p int) int {
	if Or(EndOfLine(b, p) >= 0, At(b, p) == End) {
		return p
	}
	return CommentTail(b, p+1)
}

//spec:opaque
func Comment(b []rune, p int) int {
	if !Or(Lit(b, p, "--"), Lit(b, p, "//")) {
		return -1
	}
	return EndOfLine(b, CommentTail(b, p+2))
}

//spec:opaque
func SpaceComment(b []rune, p int) int {
	if e := Space(b, p); e >= 0 {
		return e
	}
	return Comment(b, p)
}

// Spaces is the rule _.
//
//spec:opaque
func Spaces(b []rune, p int) int {
	e := SpaceComment(b, p)
	if e < 0 {
		return p
	}
	return Spaces(b, e)
}

// Spaces1 is the rule __.
//
//spec:opaque
func Spaces1(b []rune, p int) int {
	e := SpaceComment(b, p)
	if e < 0 {
		return -1
	}
	return Spaces(b, e)
}

//spec:opaque
func EndOfFile(b []rune, p int) int {
	if At(b, p) == End {
		return p
	}
	return -1
}

// ---- names

func Alpha(b []rune, p int) bool { return Or(Range(b, p, 'a', 'z'), Range(b, p, 'A', 'Z')) }

//spec:opaque
func IdentTail(b []rune, p int) int {
	if Or(Alpha(b, p), Range(b, p, '0', '9'), At(b, p) == '_') {
		return IdentTail(b, p+1)
	}
	return p
}

//spec:opaque
func Identifier(b []rune, p int) (int, *Node, bool) {
	if Word(b, p, "not") {
		return -1, nil, false
	}
	if !Alpha(b, p) {
		return -1, nil, false
	}
	e := IdentTail(b, p+1)
	return e, &Node{Type: miniquery.IdentifierNodeType, Name: Text(b, p, e)}, false
}

// ReferenceTail matches the remaining names of a reference.
//
//spec:opaque
func ReferenceTail(b []rune, p int, ids []*Node) (int, []*Node) {
	if At(b, p) != '.' {
		return p, ids
	}
	e, n, _ := Identifier(b, p+1)
	if e < 0 {
		return p, ids
	}
	return ReferenceTail(b, e, append(ids, n))
}

// NamesFrom are the names of the identifiers from index k on.
//
//spec:opaque
func NamesFrom(ids []*Node, k int) []string {
	if k >= len(ids) {
		return nil
	}
	return append([]string{ids[k].Name}, NamesFrom(ids, k+1)...)
}

//spec:opaque
func IdentifierReference(b []rune, p int) (int, *Node, bool) {
	e, n, _ := Identifier(b, p)
	if e < 0 || At(b, e) != '.' {
		return -1, nil, false
	}
	e2, n2, _ := Identifier(b, e+1)
	if e2 < 0 {
		return -1, nil, false
	}
	e3, ids := ReferenceTail(b, e2, []*Node{n, n2})
	return e3, &Node{Type: miniquery.ReferenceNodeType, Names: NamesFrom(ids, 0)}, false
}

//spec:opaque
func Reference(b []rune, p int) (int, *Node, bool) {
	e, n, bad := IdentifierReference(b, p)
	if e >= 0 {
		return e, n, bad
	}
	return Identifier(b, p)
}

// ---- literals

//spec:opaque
func DigitsTail(b []rune, p int) int {
	if Range(b, p, '0', '9') {
		return DigitsTail(b, p+1)
	}
	return p
}

//spec:opaque
func Integer(b []rune, p int) (int, *Node, bool) {
	e := p + 1
	if At(b, p) != '0' {
		if !Range(b, p, '1', '9') {
			return -1, nil, false
		}
		e = DigitsTail(b, p+1)
	}
	v, err := strconv.Atoi(Text(b, p, e))
	return e, &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.IntValueType, Int: v}, err != nil
}

func boolNode(v bool) *Node {
	return &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.BooleanValueType, Bool: v}
}

//spec:opaque
func Boolean(b []rune, p int) (int, *Node, bool) {
	if Or(Lit(b, p, "true"), Lit(b, p, "TRUE")) {
		return p + 4, boolNode(true), false
	}
	if Or(Lit(b, p, "false"), Lit(b, p, "FALSE")) {
		return p + 5, boolNode(false), false
	}
	return -1, nil, false
}

//spec:opaque
func Null(b []rune, p int) (int, *Node, bool) {
	if Or(Lit(b, p, "null"), Lit(b, p, "NULL")) {
		return p + 4, &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.NullValueType}, false
	}
	return -1, nil, false
}

// StringTail is the position of the next quote q, or of the end of the text.
//
//spec:opaque
func StringTail(b []rune, p int, q rune) int {
	if Or(At(b, p) == q, At(b, p) == End) {
		return p
	}
	return StringTail(b, p+1, q)
}

//spec:opaque
func String(b []rune, p int) (int, *Node, bool) {
	q := At(b, p)
	if And(q != '\'', q != '"') {
		return -1, nil, false
	}
	e := StringTail(b, p+1, q)
	if At(b, e) != q {
		return -1, nil, false
	}
	return e + 1, &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.StringValueType, Str: Text(b, p+1, e)}, false
}

//spec:opaque
func Literal(b []rune, p int) (int, *Node, bool) {
	if e, n, bad := String(b, p); e >= 0 {
		return e, n, bad
	}
	if e, n, bad := Integer(b, p); e >= 0 {
		return e, n, bad
	}
	if e, n, bad := Boolean(b, p); e >= 0 {
		return e, n, bad
	}
	return Null(b, p)
}

// ArrayTail matches the remaining elements of an array.
//
//spec:opaque
func ArrayTail(b []rune, p int, acc []*Node, bad bool) (int, []*Node, bool) {
	q := Spaces(b, p)
	if At(b, q) != ',' {
		return p, acc, bad
	}
	e, n, bad2 := Literal(b, Spaces(b, q+1))
	if e < 0 {
		return p, acc, bad
	}
	return ArrayTail(b, e, append(acc, n), Or(bad, bad2))
}

func arrayNode(elems []*Node) *Node {
	return &Node{Type: miniquery.ValueNodeType, ValueType: miniquery.ArrayValueType, Array: elems}
}

// arrayEnd matches the optional comma and the closing delimiter.
func arrayEnd(b []rune, p int, end rune) int {
	q := Spaces(b, p)
	if At(b, q) == ',' {
		q++
	}
	q = Spaces(b, q)
	if At(b, q) != end {
		return -1
	}
	return q + 1
}

//spec:opaque
func Array(b []rune, p int) (int, *Node, bool) {
	var end rune
	switch At(b, p) {
	case '[':
		end = ']'
	case '(':
		end = ')'
	default:
		return -1, nil, false
	}
	q := Spaces(b, p+1)
	e, n, bad := Literal(b, q)
	if e < 0 {
		r := Spaces(b, q)
		if At(b, r) != end {
			return -1, nil, false
		}
		return r + 1, arrayNode(nil), false
	}
	e, elems, bad := ArrayTail(b, e, []*Node{n}, bad)
	r := arrayEnd(b, e, end)
	if r < 0 {
		return -1, nil, false
	}
	return r, arrayNode(elems), bad
}

//spec:opaque
func Value(b []rune, p int) (int, *Node, bool) {
	if e, n, bad := Literal(b, p); e >= 0 {
		return e, n, bad
	}
	return Array(b, p)
}

// ---- operators

func opNode(op string) *Node {
	return &Node{Type: miniquery.OperationNodeType, Operation: op}
}

// symbolOp is the comparison written with symbols at p, and its length.
func symbolOp(b []rune, p int) (string, int) {
	if Lit(b, p, ">=") {
		return "gte", 2
	}
	if Lit(b, p, "<=") {
		return "lte", 2
	}
	if Lit(b, p, "==") {
		return "eq", 2
	}
	if Or(Lit(b, p, "!="), Lit(b, p, "<>")) {
		return "neq", 2
	}
	if Lit(b, p, ">") {
		return "gt", 1
	}
	if Lit(b, p, "<") {
		return "lt", 1
	}
	if Lit(b, p, "=") {
		return "eq", 1
	}
	return "", 0
}

func wordOp(b []rune, p int) (string, int) {
	if Word(b, p, "gte") {
		return "gte", 3
	}
	if Word(b, p, "lte") {
		return "lte", 3
	}
	if Word(b, p, "gt") {
		return "gt", 2
	}
	if Word(b, p, "lt") {
		return "lt", 2
	}
	if Word(b, p, "eq") {
		return "eq", 2
	}
	if Word(b, p, "neq") {
		return "neq", 3
	}
	return "", 0
}

// notWord matches word, or not followed by word.
func notWord(b []rune, p int, word string, n int) (string, int) {
	if Word(b, p, word) {
		return word, p + n
	}
	if !Word(b, p, "not") {
		return "", -1
	}
	q := Spaces1(b, p+3)
	if q < 0 || !Word(b, q, word) {
		return "", -1
	}
	return "not " + word, q + n
}

//spec:opaque
func Compare(b []rune, p int) (int, *Node, bool) {
	q := Spaces(b, p)
	if op, n := symbolOp(b, q); n > 0 {
		return Spaces(b, q+n), opNode(op), false
	}
	if op, n := wordOp(b, q); n > 0 {
		return Spaces(b, q+n), opNode(op), false
	}
	op, e := notWord(b, q, "like", 4)
	if e < 0 {
		return -1, nil, false
	}
	return Spaces(b, e), opNode(op), false
}

//spec:opaque
func Logic(b []rune, p int) (int, *Node, bool) {
	q := Spaces(b, p)
	if Word(b, q, "and") {
		return Spaces(b, q+3), opNode("and"), false
	}
	if Word(b, q, "or") {
		return Spaces(b, q+2), opNode("or"), false
	}
	if Lit(b, q, "&&") {
		return Spaces(b, q+2), opNode("and"), false
	}
	if Lit(b, q, "||") {
		return Spaces(b, q+2), opNode("or"), false
	}
	return -1, nil, false
}

// truth matches true, false or null and returns its length.
func truth(b []rune, p int) (string, int) {
	if Lit(b, p, "true") {
		return "true", 4
	}
	if Lit(b, p, "false") {
		return "false", 5
	}
	if Lit(b, p, "null") {
		return "null", 4
	}
	return "", 0
}

//spec:opaque
func Match(b []rune, p int) (int, *Node, bool) {
	q := Spaces1(b, p)
	if q < 0 {
		return -1, nil, false
	}
	if Lit(b, q, "isnull") {
		return Spaces(b, q+6), opNode("is null"), false
	}
	if Lit(b, q, "notnull") {
		return Spaces(b, q+7), opNode("is not null"), false
	}
	if !Lit(b, q, "is") {
		return -1, nil, false
	}
	r := Spaces1(b, q+2)
	if r < 0 {
		return -1, nil, false
	}
	if t, n := truth(b, r); n > 0 {
		return Spaces(b, r+n), opNode("is " + t), false
	}
	if !Lit(b, r, "not") {
		return -1, nil, false
	}
	s := Spaces1(b, r+3)
	if s < 0 {
		return -1, nil, false
	}
	if t, n := truth(b, s); n > 0 {
		return Spaces(b, s+n), opNode("is not " + t), false
	}
	return -1, nil, false
}

// Norm is the canonical form of an operator that is not in the grammar.
//
//spec:extern
func Norm(s string) string { return miniquery.NormalizeOperation(s) }

// OpAt is the canonical name of the operator that is written from i to j.
func OpAt(b []rune, i, j int) string {
	if op, n := symbolOp(b, i); And(n > 0, j == i+n) {
		return op
	}
	if op, n := wordOp(b, i); And(n > 0, j == i+n) {
		return op
	}
	if op, e := notWord(b, i, "like", 4); And(e >= 0, j == e) {
		return op
	}
	if op, e := notWord(b, i, "in", 2); And(e >= 0, j == e) {
		return op
	}
	if op, e := notWord(b, i, "between", 7); And(e >= 0, j == e) {
		return op
	}
	if And(Word(b, i, "and"), j == i+3) {
		return "and"
	}
	if And(Word(b, i, "or"), j == i+2) {
		return "or"
	}
	if And(Lit(b, i, "&&"), j == i+2) {
		return "and"
	}
	if And(Lit(b, i, "||"), j == i+2) {
		return "or"
	}
	if And(Lit(b, i, "isnull"), j == i+6) {
		return "is null"
	}
	if And(Lit(b, i, "notnull"), j == i+7) {
		return "is not null"
	}
	if Lit(b, i, "is") {
		r := Spaces1(b, i+2)
		if t, n := truth(b, r); And(r >= 0, n > 0, j == r+n) {
			return "is " + t
		}
		if s := Spaces1(b, r+3); And(r >= 0, s >= 0, Lit(b, r, "not")) {
			if t, n := truth(b, s); And(n > 0, j == s+n) {
				return "is not " + t
			}
		}
	}
	return Norm(Text(b, i, j))
}

// ---- expressions

// ArgumentTail matches the remaining arguments of a function.
//
//spec:opaque
func ArgumentTail(b []rune, p int, acc []*Node, bad bool) (int, []*Node, bool) {
	q := Spaces(b, p)
	if At(b, q) != ',' {
		return p, acc, bad
	}
	e, n, bad2 := Argument(b, Spaces(b, q+1))
	if e < 0 {
		return p, acc, bad
	}
	return ArgumentTail(b, e, append(acc, n), Or(bad, bad2))
}

//spec:opaque
func ArgumentList(b []rune, p int) (int, *Node, bool) {
	if At(b, p) != '(' {
		return -1, nil, false
	}
	q := Spaces(b, p+1)
	e, n, bad := Argument(b, q)
	if e < 0 {
		r := Spaces(b, q)
		if At(b, r) != ')' {
			return -1, nil, false
		}
		return r + 1, arrayNode(nil), false
	}
	e, args, bad := ArgumentTail(b, e, []*Node{n}, bad)
	r := arrayEnd(b, e, ')')
	if r < 0 {
		return -1, nil, false
	}
	return r, arrayNode(args), bad
}

//spec:opaque
func Primary(b []rune, p int) (int, *Node, bool) {
	if At(b, p) == '(' {
		e, n, bad := Expression(b, Spaces(b, p+1))
		if e >= 0 {
			q := Spaces(b, e)
			if At(b, q) == ')' {
				return q + 1, &Node{Type: miniquery.ParenthesesExpressionType, Expression: n}, bad
			}
		}
	}
	if e, n, bad := Value(b, p); e >= 0 {
		return e, n, bad
	}
	if e, n, bad := Identifier(b, p); e >= 0 {
		if e2, a, bad2 := ArgumentList(b, e); e2 >= 0 {
			return e2, &Node{Type: miniquery.FunctionExpressionType, Name: n.Name, Params: a.Array}, Or(bad, bad2)
		}
	}
	return Reference(b, p)
}

func betweenNode(left *Node, op string, lo, hi *Node) *Node {
	return &Node{Type: miniquery.BetweenExpressionType, Left: left, Op: opNode(op), Params: []*Node{lo, hi}}
}

// bounds matches the bounds of between.
func bounds(b []rune, p int) (int, *Node, *Node, bool) {
	if e, lo, bad := Value(b, p); e >= 0 {
		if q := Spaces(b, e); Word(b, q, "and") {
			if e2, hi, bad2 := Value(b, Spaces(b, q+3)); e2 >= 0 {
				return e2, lo, hi, Or(bad, bad2)
			}
		}
	}
	if At(b, p) != '[' {
		return -1, nil, nil, false
	}
	e, lo, bad := Value(b, Spaces(b, p+1))
	if e < 0 {
		return -1, nil, nil, false
	}
	q := Spaces(b, e)
	if At(b, q) != ',' {
		return -1, nil, nil, false
	}
	e2, hi, bad2 := Value(b, Spaces(b, q+1))
	if e2 < 0 {
		return -1, nil, nil, false
	}
	q = Spaces(b, e2)
	if At(b, q) != ']' {
		return -1, nil, nil, false
	}
	return q + 1, lo, hi, Or(bad, bad2)
}

//spec:opaque
func Between(b []rune, p int) (int, *Node, bool) {
	e, n, bad := Primary(b, p)
	if e < 0 {
		return -1, nil, false
	}
	q := Spaces(b, e)
	op := "between"
	if Word(b, q, "not") {
		if r := Spaces1(b, q+3); r >= 0 {
			q, op = r, "not between"
		}
	}
	if !Lit(b, q, "between") {
		return e, n, bad
	}
	r, lo, hi, bad2 := bounds(b, Spaces(b, q+7))
	if r < 0 {
		return e, n, bad
	}
	return r, betweenNode(n, op, lo, hi), Or(bad, bad2)
}

//spec:opaque
func Predicate(b []rune, p int) (int, *Node, bool) {
	e, n, bad := Between(b, p)
	if e < 0 {
		return -1, nil, false
	}
	r, op, bad2 := Match(b, e)
	if r < 0 {
		return e, n, bad
	}
	return r, &Node{Type: miniquery.PredicatesExpressionType, Left: n, Op: op}, Or(bad, bad2)
}

func compareNode(l, op, r *Node) *Node {
	return &Node{Type: miniquery.CompareExpressionType, Left: l, Op: op, Right: r}
}

//spec:opaque
func CompareIn(b []rune, p int) (int, *Node, bool) {
	e, n, bad := Predicate(b, p)
	if e < 0 {
		return -1, nil, false
	}
	op, q := notWord(b, Spaces(b, e), "in", 2)
	if q < 0 {
		return e, n, bad
	}
	r, a, bad2 := Array(b, Spaces(b, q))
	if r < 0 {
		return e, n, bad
	}
	return r, compareNode(n, opNode(op), a), Or(bad, bad2)
}

// CompareTail matches the remaining comparisons, to the left.
//
//spec:opaque
func CompareTail(b []rune, p int, acc *Node, bad bool) (int, *Node, bool) {
	q, op, bad1 := Compare(b, p)
	if q < 0 {
		return p, acc, bad
	}
	e, n, bad2 := CompareIn(b, q)
	if e < 0 {
		return p, acc, bad
	}
	return CompareTail(b, e, compareNode(acc, op, n), Or(bad, bad1, bad2))
}

//spec:opaque
func CompareExpression(b []rune, p int) (int, *Node, bool) {
	e, n, bad := CompareIn(b, p)
	if e < 0 {
		return -1, nil, false
	}
	return CompareTail(b, e, n, bad)
}

//spec:opaque
func Not(b []rune, p int) (int, *Node, bool) {
	if e, n, bad := CompareExpression(b, p); e >= 0 {
		return e, n, bad
	}
	q := Spaces(b, p)
	if !Word(b, q, "not") {
		return -1, nil, false
	}
	r := Spaces1(b, q+3)
	if r < 0 {
		return -1, nil, false
	}
	e, n, bad := CompareExpression(b, r)
	if e < 0 {
		return -1, nil, false
	}
	return e, &Node{Type: miniquery.NotExpressionType, Expression: n}, bad
}

func logicNode(l *Node, op string, r *Node) *Node {
	return &Node{Type: miniquery.LogicExpressionType, Left: l, Op: opNode(op), Right: r}
}

// orNode joins the alternatives so far, if any, with the conjunction that was read last.
func orNode(ors, ands *Node) *Node {
	if ors == nil {
		return ands
	}
	return logicNode(ors, "or", ands)
}

// LogicTail matches the remaining operands of and and or. ors are the
// alternatives that are complete, ands is the conjunction being read: and binds
// tighter than or, both associate to the left.
//
//spec:opaque
func LogicTail(b []rune, p int, ors, ands *Node, bad bool) (int, *Node, bool) {
	q, op, bad1 := Logic(b, p)
	if q < 0 {
		return p, orNode(ors, ands), bad
	}
	e, n, bad2 := Not(b, q)
	if e < 0 {
		return p, orNode(ors, ands), bad
	}
	if op.Operation == "and" {
		return LogicTail(b, e, ors, logicNode(ands, "and", n), Or(bad, bad1, bad2))
	}
	return LogicTail(b, e, orNode(ors, ands), n, Or(bad, bad1, bad2))
}

// LogicAcc continues after the tree acc of what was read.
func LogicAcc(b []rune, p int, acc *Node, bad bool) (int, *Node, bool) {
	if acc.Type == miniquery.LogicExpressionType && acc.Op.Operation == "or" {
		return LogicTail(b, p, acc.Left, acc.Right, bad)
	}
	return LogicTail(b, p, nil, acc, bad)
}

//spec:opaque
func LogicExpression(b []rune, p int) (int, *Node, bool) {
	e, n, bad := Not(b, p)
	if e < 0 {
		return -1, nil, false
	}
	return LogicTail(b, e, nil, n, bad)
}

//spec:opaque
func Expression(b []rune, p int) (int, *Node, bool) { return LogicExpression(b, p) }

//spec:opaque
func Argument(b []rune, p int) (int, *Node, bool) { return Expression(b, p) }

//spec:opaque
func Grammar(b []rune, p int) (int, *Node, bool) {
	e, n, bad := Expression(b, Spaces(b, p))
	if e < 0 {
		return -1, nil, false
	}
	r := EndOfFile(b, Spaces(b, e))
	if r < 0 {
		return -1, nil, false
	}
	return r, n, bad
}

// Parse is the tree of a query; ok tells that the query is valid.
func Parse(s string) (*Node, bool) {
	e, n, bad := Grammar([]rune(s), 0)
	if e < 0 || bad {
		return nil, false
	}
	return n, true
}

// Valid: s is a query.
//
//spec:extern
func Valid(s string) bool {
	_, ok := Parse(s)
	return ok
}

// Tree is the tree of a query.
//
//spec:extern
func Tree(s string) *Node {
	n, _ := Parse(s)
	return n
}
