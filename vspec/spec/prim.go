// Package spec says what the packages of the repository have to compute.
//
// Every function is pure Go, and is used twice: the verifier translates it to
// logic, and the replay programs run it as an oracle. A function marked
// spec:opaque is an uninterpreted function for the verifier, which unfolds its
// definition on demand; the others are expanded where they are used. A function
// marked "spec:lemma F" states a fact on the applications of F; the verifier
// proves it by induction before it uses it.
package spec

import (
	"reflect"

	"github.com/wenerme/go-miniquery/miniquery"
)

// Node is a node of the syntax tree.
type Node = miniquery.Node

// End stands for the end of the text. No rune has this value.
const End = 1114112

// At is the rune at position i, End past the end. (primitive)
func At(b []rune, i int) rune {
	if i >= 0 && i < len(b) {
		return b[i]
	}
	return End
}

// Text is the text from position i to j. (primitive)
func Text(b []rune, i, j int) string { return string(b[i:j]) }

// Lit tells if the text at position i starts with s. (primitive)
func Lit(b []rune, i int, s string) bool {
	for k, c := range s {
		if At(b, i+k) != c {
			return false
		}
	}
	return true
}

// Word tells if the text at position i starts with the lower case word s, in any case. (primitive)
func Word(b []rune, i int, s string) bool {
	for k, c := range s {
		if a := At(b, i+k); a != c && a != c-'a'+'A' {
			return false
		}
	}
	return true
}

// Range tells if the rune at position i is between lo and hi. (primitive)
func Range(b []rune, i int, lo, hi rune) bool {
	a := At(b, i)
	return a >= lo && a <= hi
}

// Or, And and Not are the logical connectives without evaluation order. (primitive)
func Or(a ...bool) bool {
	for _, v := range a {
		if v {
			return true
		}
	}
	return false
}

func And(a ...bool) bool {
	for _, v := range a {
		if !v {
			return false
		}
	}
	return true
}

// Same tells if two trees are equal. A nil and an empty list are not told apart. (primitive)
func Same(a, b *Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Type != b.Type || a.ValueType != b.ValueType || a.Int != b.Int || a.Bool != b.Bool || a.Str != b.Str ||
		a.Float != b.Float || a.Operation != b.Operation || a.Name != b.Name {
		return false
	}
	if len(a.Names) != len(b.Names) || len(a.Array) != len(b.Array) || len(a.Params) != len(b.Params) {
		return false
	}
	for i := range a.Names {
		if a.Names[i] != b.Names[i] {
			return false
		}
	}
	for i := range a.Array {
		if !Same(a.Array[i], b.Array[i]) {
			return false
		}
	}
	for i := range a.Params {
		if !Same(a.Params[i], b.Params[i]) {
			return false
		}
	}
	return Same(a.Expression, b.Expression) && Same(a.Left, b.Left) && Same(a.Op, b.Op) && Same(a.Right, b.Right)
}

// SameValue compares values bound to a statement. (primitive)
func SameValue(a, b any) bool { return reflect.DeepEqual(a, b) }
