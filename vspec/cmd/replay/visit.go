package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"
)

type visitKey struct{}

var fields = []string{"Binary", "Logic", "Between", "Function", "Predicates", "Parentheses", "Not", "Identifier", "Reference", "Operation", "Value", "Terminate"}

func slots(v *miniquery.Visitor) map[string]*miniquery.VisitFunc {
	return map[string]*miniquery.VisitFunc{
		"Binary": &v.BinaryExpression, "Logic": &v.LogicExpression, "Between": &v.BetweenExpression, "Function": &v.FunctionExpression,
		"Predicates": &v.PredicatesExpression, "Terminate": &v.TerminateExpression, "Parentheses": &v.ParenthesesExpression, "Not": &v.NotExpression,
		"Identifier": &v.IdentifierNode, "Reference": &v.ReferenceNode, "Operation": &v.OperationNode, "Value": &v.ValueNode,
	}
}

var slotOf = map[miniquery.NodeType]string{
	miniquery.ValueNodeType: "Value", miniquery.OperationNodeType: "Operation", miniquery.IdentifierNodeType: "Identifier", miniquery.ReferenceNodeType: "Reference",
	miniquery.PredicatesExpressionType: "Predicates", miniquery.CompareExpressionType: "Binary", miniquery.LogicExpressionType: "Logic", miniquery.ParenthesesExpressionType: "Parentheses",
	miniquery.NotExpressionType: "Not", miniquery.BetweenExpressionType: "Between", miniquery.FunctionExpressionType: "Function",
}

// children of a node, in the order they are written.
func children(n *miniquery.Node) []*miniquery.Node {
	switch n.Type {
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		return []*miniquery.Node{n.Expression}
	case miniquery.PredicatesExpressionType:
		return []*miniquery.Node{n.Left, n.Op}
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		return []*miniquery.Node{n.Left, n.Op, n.Right}
	case miniquery.BetweenExpressionType:
		return append([]*miniquery.Node{n.Left, n.Op}, n.Params...)
	case miniquery.FunctionExpressionType:
		return n.Params
	case miniquery.ValueNodeType:
		if n.ValueType == miniquery.ArrayValueType {
			return n.Array
		}
	}
	return nil
}

// expectVisit is the log of visiting a node: the callbacks in set are called, the
// others walk the children. The callback number stop returns an error.
func expectVisit(n *miniquery.Node, set map[string]bool, stop int, log *[]string) bool {
	s := slotOf[n.Type]
	if set[s] {
		*log = append(*log, s+" "+show(n))
		return len(*log) != stop
	}
	for _, c := range children(n) {
		if !expectVisit(c, set, stop, log) {
			return false
		}
	}
	return true
}

func visitCase(c Case) *Finding {
	n, err := miniquery.Parse(c.Queries[0])
	if err != nil {
		return nil
	}
	accepted++
	mask := c.Env % 4096
	stop := c.Env / 4096 % 16
	set := map[string]bool{}
	for i, f := range fields {
		if mask>>i&1 == 1 {
			set[f] = true
		}
	}
	errStop := errors.New("stop")
	ctx := context.WithValue(context.Background(), visitKey{}, 1)
	var got, want []string
	bad := ""
	var v miniquery.Visitor
	sl := slots(&v)
	for f := range set {
		f := f
		*sl[f] = func(c context.Context, n *miniquery.Node) error {
			if c != ctx {
				bad = "the context is another"
			}
			got = append(got, f+" "+show(n))
			if len(got) == stop {
				return errStop
			}
			return nil
		}
	}
	v.Init()
	for f, p := range sl {
		if *p == nil && f != "Terminate" {
			return &Finding{What: "a callback is nil after Init: " + f}
		}
	}
	err = v.Visit(ctx, n)
	ok := expectVisit(n, set, stop, &want)
	switch {
	case bad != "":
		return &Finding{What: bad}
	case strings.Join(got, "\n") != strings.Join(want, "\n"):
		return &Finding{What: fmt.Sprintf("other callbacks are called, set are %v", set), Expected: strings.Join(want, "\n"), Actual: strings.Join(got, "\n")}
	case ok && err != nil:
		return &Finding{What: "an error although no callback fails", Actual: err.Error()}
	case !ok && !errors.Is(err, errStop):
		return &Finding{What: "the error of a callback is not returned", Actual: fmt.Sprint(err)}
	}
	// unknown types, whatever is set
	for _, t := range []miniquery.NodeType{"", "unknown", "Value", "values", "terminate", "null"} {
		got = nil
		if err := v.Visit(ctx, &miniquery.Node{Type: t, Left: n, Right: n, Op: n, Expression: n}); err == nil {
			return &Finding{What: fmt.Sprintf("no error for a node of type %q", t)}
		}
		if len(got) > 0 {
			return &Finding{What: fmt.Sprintf("a callback is called for a node of type %q", t), Actual: got[0]}
		}
	}
	// one callback after the other replaced after Init
	for _, f := range fields {
		old := *sl[f]
		got = nil
		*sl[f] = func(c context.Context, n *miniquery.Node) error {
			got = append(got, f+" "+show(n))
			return nil
		}
		set2 := map[string]bool{f: true}
		var others []string
		for k := range set {
			set2[k] = true
		}
		_ = v.Visit(ctx, n)
		if stop == 0 {
			expectVisit(n, set2, 0, &others)
			if strings.Join(got, "\n") != strings.Join(others, "\n") {
				return &Finding{What: "the callback " + f + " set after Init is not the one called", Expected: strings.Join(others, "\n"), Actual: strings.Join(got, "\n")}
			}
		}
		*sl[f] = old
	}
	// every default callback wrapped, the k-th call fails
	for _, f := range fields {
		old := *sl[f]
		*sl[f] = func(c context.Context, n *miniquery.Node) error {
			got = append(got, f+" "+show(n))
			if len(got) == stop {
				return errStop
			}
			return old(c, n)
		}
		if set[f] {
			*sl[f] = old
		}
	}
	for stop = 0; stop < 24; stop++ {
		got, want = nil, nil
		err = v.Visit(ctx, n)
		ok := expectWalk(n, set, stop, &want)
		switch {
		case strings.Join(got, "\n") != strings.Join(want, "\n"):
			return &Finding{What: fmt.Sprintf("other callbacks are called, call %d fails, set are %v", stop, set), Expected: strings.Join(want, "\n"), Actual: strings.Join(got, "\n")}
		case ok && err != nil:
			return &Finding{What: "an error although no callback fails", Actual: err.Error()}
		case !ok && !errors.Is(err, errStop):
			return &Finding{What: "the error of a callback is not returned", Actual: fmt.Sprint(err)}
		}
		if stop > len(want) {
			break
		}
	}
	return nil
}

// expectWalk is expectVisit with the default callbacks in the log as well.
func expectWalk(n *miniquery.Node, set map[string]bool, stop int, log *[]string) bool {
	s := slotOf[n.Type]
	*log = append(*log, s+" "+show(n))
	if len(*log) == stop {
		return false
	}
	if set[s] {
		return true
	}
	for _, c := range children(n) {
		if !expectWalk(c, set, stop, log) {
			return false
		}
	}
	return true
}

func init() {
	checkers["C08"] = &checker{gen: func(g *gen) Case {
		c := parserCase(g)
		switch g.n(5) {
		case 0:
			c.Env = 4095 // all set
		case 1:
			c.Env = 0
		case 2:
			c.Env = 1 << g.n(12)
		default:
			c.Env = g.n(4096)
		}
		if g.n(3) == 0 {
			c.Env |= 4095 - 1<<g.n(12)
		}
		if g.n(2) == 0 {
			c.Env += 4096 * g.n(16)
		}
		return c
	}, fixed: parserFixed, run: visitCase}
}
