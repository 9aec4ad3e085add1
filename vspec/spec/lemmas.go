package spec

import "github.com/wenerme/go-miniquery/miniquery"

// Facts on the specification functions. The verifier proves each of them, by
// induction on the position, before it uses them.

func in(b []rune, p int) bool { return And(0 <= p, p <= len(b)) }

// moves: a match that is not empty ends within the text.
func moves(b []rune, p, e int) bool {
	return Or(!in(b, p), e < 0, And(p < e, e <= len(b)))
}

func stays(b []rune, p, e int) bool {
	return Or(!in(b, p), And(p <= e, e <= len(b)))
}

//spec:lemma EndOfLine
func LEndOfLine(b []rune, p int) bool {
	return moves(b, p, EndOfLine(b, p))
}

//spec:lemma Space
func LSpace(b []rune, p int) bool {
	return moves(b, p, Space(b, p))
}

//spec:lemma Comment
func LComment(b []rune, p int) bool {
	return moves(b, p, Comment(b, p))
}

//spec:lemma SpaceComment
func LSpaceComment(b []rune, p int) bool {
	return moves(b, p, SpaceComment(b, p))
}

//spec:lemma Spaces1
func LSpaces1(b []rune, p int) bool {
	return moves(b, p, Spaces1(b, p))
}

//spec:lemma CommentTail
func LCommentTail(b []rune, p int) bool {
	return stays(b, p, CommentTail(b, p))
}

//spec:lemma Spaces
func LSpaces(b []rune, p int) bool {
	return stays(b, p, Spaces(b, p))
}

//spec:lemma IdentTail
func LIdentTail(b []rune, p int) bool {
	e := IdentTail(b, p)
	return And(stays(b, p, e), NameChars(b, p, e))
}

//spec:lemma DigitsTail
func LDigitsTail(b []rune, p int) bool {
	return stays(b, p, DigitsTail(b, p))
}

//spec:lemma StringTail
func LStringTail(b []rune, p int, q rune) bool {
	return stays(b, p, StringTail(b, p, q))
}

//spec:lemma EndOfFile
func LEndOfFile(b []rune, p int) bool {
	e := EndOfFile(b, p)
	return Or(e < 0, e == p)
}

//spec:lemma Identifier
func LIdentifier(b []rune, p int) bool {
	e, n, bad := Identifier(b, p)
	return And(moves(b, p, e), !bad, Or(!in(b, p), e < 0, And(IsIdent(n), WF(n))))
}

//spec:lemma ReferenceTail
func LReferenceTail(b []rune, p int, ids []*Node) bool {
	e, r := ReferenceTail(b, p, ids)
	return And(stays(b, p, e), Or(!in(b, p), !AllIdents(ids), And(AllIdents(r), len(r) >= len(ids))))
}

//spec:lemma NamesFrom
func LNamesFrom(ids []*Node, k int) bool {
	r := NamesFrom(ids, k)
	return Or(k < 0, !AllIdents(ids), And(AllNames(r), Or(k > len(ids), len(r) == len(ids)-k)))
}

//spec:lemma IdentifierReference
func LIdentifierReference(b []rune, p int) bool {
	e, n, _ := IdentifierReference(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ReferenceNodeType, WF(n))))
}

//spec:lemma Reference
func LReference(b []rune, p int) bool {
	e, n, _ := Reference(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma Integer
func LInteger(b []rune, p int) bool {
	e, n, _ := Integer(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, IsLiteral(n))))
}

//spec:lemma Boolean
func LBoolean(b []rune, p int) bool {
	e, n, _ := Boolean(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, IsLiteral(n))))
}

//spec:lemma Null
func LNull(b []rune, p int) bool {
	e, n, _ := Null(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, IsLiteral(n))))
}

//spec:lemma String
func LString(b []rune, p int) bool {
	e, n, _ := String(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, IsLiteral(n))))
}

//spec:lemma Literal
func LLiteral(b []rune, p int) bool {
	e, n, _ := Literal(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, IsLiteral(n))))
}

//spec:lemma ArrayTail
func LArrayTail(b []rune, p int, acc []*Node, bad bool) bool {
	e, r, _ := ArrayTail(b, p, acc, bad)
	return And(stays(b, p, e), Or(!in(b, p), !AllLiterals(acc), AllLiterals(r)))
}

//spec:lemma Array
func LArray(b []rune, p int) bool {
	e, n, _ := Array(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, n.ValueType == miniquery.ArrayValueType, IsArray(n))))
}

//spec:lemma Value
func LValue(b []rune, p int) bool {
	e, n, _ := Value(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, IsValue(n), WF(n))))
}

//spec:lemma Compare
func LCompare(b []rune, p int) bool {
	e, n, _ := Compare(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(IsOp(n), IsCompareOp(n.Operation))))
}

//spec:lemma Logic
func LLogic(b []rune, p int) bool {
	e, n, _ := Logic(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(IsOp(n), Or(n.Operation == "and", n.Operation == "or"))))
}

//spec:lemma Match
func LMatch(b []rune, p int) bool {
	e, n, _ := Match(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(IsOp(n), IsPredicateOp(n.Operation))))
}

//spec:lemma ArgumentTail
func LArgumentTail(b []rune, p int, acc []*Node, bad bool) bool {
	e, r, _ := ArgumentTail(b, p, acc, bad)
	return And(stays(b, p, e), Or(!in(b, p), !WFs(acc), WFs(r)))
}

//spec:lemma ArgumentList
func LArgumentList(b []rune, p int) bool {
	e, n, _ := ArgumentList(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(n.Type == miniquery.ValueNodeType, n.ValueType == miniquery.ArrayValueType, WFs(n.Array))))
}

//spec:lemma Primary
func LPrimary(b []rune, p int) bool {
	e, n, _ := Primary(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma Between
func LBetween(b []rune, p int) bool {
	e, n, _ := Between(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma Predicate
func LPredicate(b []rune, p int) bool {
	e, n, _ := Predicate(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma CompareIn
func LCompareIn(b []rune, p int) bool {
	e, n, _ := CompareIn(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma CompareExpression
func LCompareExpression(b []rune, p int) bool {
	e, n, _ := CompareExpression(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma Not
func LNot(b []rune, p int) bool {
	e, n, _ := Not(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma CompareTail
func LCompareTail(b []rune, p int, acc *Node, bad bool) bool {
	e, n, _ := CompareTail(b, p, acc, bad)
	return And(stays(b, p, e), Or(!in(b, p), !And(notLogic(acc), WF(acc)), n != nil && And(notLogic(n), WF(n))))
}

//spec:lemma LogicTail
func LLogicTail(b []rune, p int, ors, ands *Node, bad bool) bool {
	e, n, _ := LogicTail(b, p, ors, ands, bad)
	return And(stays(b, p, e), Or(!in(b, p), !Or(ors == nil, WF(ors)), !WF(ands), n != nil && And(WF(n))))
}

//spec:lemma LogicExpression
func LLogicExpression(b []rune, p int) bool {
	e, n, _ := LogicExpression(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(WF(n))))
}

//spec:lemma Expression
func LExpression(b []rune, p int) bool {
	e, n, _ := Expression(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(WF(n))))
}

//spec:lemma Argument
func LArgument(b []rune, p int) bool {
	e, n, _ := Argument(b, p)
	return And(moves(b, p, e), Or(!in(b, p), e < 0, n != nil && And(WF(n))))
}

//spec:lemma Grammar
func LGrammar(b []rune, p int) bool {
	e, n, _ := Grammar(b, p)
	return Or(!in(b, p), e < 0, And(e == len(b), n != nil, WF(n)))
}
