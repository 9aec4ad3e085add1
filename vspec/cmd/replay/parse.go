package main

import (
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"
	"vspec/spec"
)

var accepted int

func show(n *miniquery.Node) string {
	if n == nil {
		return "-"
	}
	var b strings.Builder
	b.WriteString(string(n.Type))
	if n.ValueType != "" {
		b.WriteString(":" + string(n.ValueType))
	}
	if n.Int != 0 {
		fmt.Fprintf(&b, " %d", n.Int)
	}
	if n.Bool {
		b.WriteString(" true")
	}
	if n.Str != "" {
		fmt.Fprintf(&b, " %q", n.Str)
	}
	if n.Float != 0 {
		fmt.Fprintf(&b, " %v", n.Float)
	}
	if n.Operation != "" {
		fmt.Fprintf(&b, " <%s>", n.Operation)
	}
	if n.Name != "" {
		b.WriteString(" " + n.Name)
	}
	if len(n.Names) > 0 {
		fmt.Fprintf(&b, " %v", n.Names)
	}
	b.WriteString("(")
	for _, c := range []*miniquery.Node{n.Left, n.Op, n.Right, n.Expression} {
		if c != nil {
			b.WriteString(show(c) + " ")
		}
	}
	for _, c := range n.Params {
		b.WriteString(show(c) + ", ")
	}
	if n.ValueType == miniquery.ArrayValueType || len(n.Array) > 0 {
		b.WriteString("[")
		for _, c := range n.Array {
			b.WriteString(show(c) + ", ")
		}
		b.WriteString("]")
	}
	return b.String() + ")"
}

// skeleton is the tree without operators, names and values.
func skeleton(n *miniquery.Node) string {
	if n == nil {
		return "-"
	}
	switch n.Type {
	case miniquery.ValueNodeType:
		return "v"
	case miniquery.IdentifierNodeType:
		return "i"
	case miniquery.ReferenceNodeType:
		return fmt.Sprintf("r%d", len(n.Names))
	case miniquery.OperationNodeType:
		return "o"
	}
	s := string(n.Type) + "(" + skeleton(n.Left) + "," + skeleton(n.Op) + "," + skeleton(n.Right) + "," + skeleton(n.Expression)
	for _, p := range n.Params {
		s += ";" + skeleton(p)
	}
	// whether and or or is applied is part of the grouping
	if n.Type == miniquery.LogicExpressionType && n.Op != nil {
		s += "|" + n.Op.Operation
	}
	return s + ")"
}

// leaves are the names and values in the order of the tree, ops the operators.
func leaves(n *miniquery.Node, vals, ops *[]string) {
	if n == nil {
		return
	}
	leaves(n.Left, vals, ops)
	leaves(n.Op, vals, ops)
	leaves(n.Right, vals, ops)
	leaves(n.Expression, vals, ops)
	switch n.Type {
	case miniquery.ValueNodeType:
		*vals = append(*vals, show(n))
	case miniquery.OperationNodeType:
		*ops = append(*ops, n.Operation)
	case miniquery.ReferenceNodeType:
		*vals = append(*vals, "ref "+strings.Join(n.Names, " . "))
	case miniquery.IdentifierNodeType, miniquery.FunctionExpressionType:
		*vals = append(*vals, "name "+n.Name)
	}
	for _, p := range n.Params {
		leaves(p, vals, ops)
	}
}

func parserCase(g *gen) Case {
	s := g.query()
	if g.n(3) == 0 {
		s = g.mutate(s)
	}
	return Case{Queries: []string{s}}
}

func parseBoth(c Case) (n *miniquery.Node, err error, want *miniquery.Node, ok bool) {
	s := c.Queries[0]
	want, ok = spec.Parse(s)
	n, err = miniquery.Parse(s)
	if err == nil {
		accepted++
	}
	return
}

func yes(ok bool, n *miniquery.Node) string {
	if ok {
		return "accepted " + show(n)
	}
	return "rejected"
}

var parserFixed = []Case{
	{Queries: []string{""}}, {Queries: []string{"a=1 or b=2 and c=3"}}, {Queries: []string{"a is-- c\nnot null"}}, {Queries: []string{"a <= 1"}}, {Queries: []string{"a->b"}}, {Queries: []string{"a not in (1)"}}, {Queries: []string{"a not -- c\n between 1 and 2"}},
}

// spellings are queries with every operator in many spellings.
func spellings() []Case {
	var out []Case
	add := func(s string) { out = append(out, Case{Queries: []string{s}}) }
	seps := []string{" ", "\t", "\n", "\r", "\r\n", "-- c\n", "//\r", "--not in\r\n"}
	for _, a := range seps[:len(seps):len(seps)] {
		for _, b := range seps[:5] {
			seps = append(seps, a+b, b+a)
		}
	}
	cases := func(w string, f func(w string)) {
		for m := 0; m < 1<<len(w) && m < 256; m++ {
			b := []byte(w)
			for i := range b {
				if m>>i&1 == 1 && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			f(string(b))
		}
	}
	for _, op := range []string{"=", "==", "!=", "<>", "<", "<=", ">", ">=", "&&", "||"} {
		for _, x := range seps {
			add("a" + x + op + "b")
			add("a" + op + x + "b")
		}
		add("a" + op + "b")
	}
	for _, op := range []string{"eq", "neq", "lt", "lte", "gt", "gte", "like", "and", "or"} {
		cases(op, func(w string) {
			for _, x := range seps[:10] {
				add("a" + x + w + x + "b")
			}
		})
	}
	for _, op := range []string{"like 'b'", "in (1)", "between 1 and 2"} {
		word, rest, _ := strings.Cut(op, " ")
		cases("not", func(n string) {
			cases(word, func(w string) {
				add("a " + n + " " + w + " " + rest)
			})
			for _, x := range seps {
				add("a " + n + x + word + " " + rest)
			}
		})
		cases(word, func(w string) { add("a " + w + " " + rest) })
	}
	add("a isnull")
	add("a notnull")
	for _, t := range []string{"null", "true", "false"} {
		for _, x := range seps {
			add("a is" + x + t)
			for _, y := range seps {
				add("a is" + x + "not" + y + t)
			}
		}
	}
	return out
}

func init() {
	mk := func(run func(c Case) *Finding) *checker {
		return &checker{run: run, gen: parserCase, tokens: 3, fixed: parserFixed}
	}
	checkers["C01"] = mk(func(c Case) *Finding {
		n, err := miniquery.Parse(c.Queries[0])
		if err == nil {
			accepted++
		} else {
			_ = err.Error()
		}
		switch {
		case n == nil && err == nil:
			return &Finding{What: "neither a tree nor an error"}
		case n != nil && err != nil:
			return &Finding{What: "a tree and an error", Actual: show(n)}
		case n != nil && !spec.WF(n):
			return &Finding{What: "the tree is not well formed", Actual: show(n)}
		}
		return nil
	})
	checkers["C02"] = mk(func(c Case) *Finding {
		n, err, want, ok := parseBoth(c)
		if (err == nil) != ok {
			return &Finding{What: "a valid query is refused or an invalid one is accepted", Expected: yes(ok, want), Actual: yes(err == nil, n)}
		}
		return nil
	})
	checkers["C03"] = mk(func(c Case) *Finding {
		n, err, want, ok := parseBoth(c)
		if err == nil && ok && skeleton(n) != skeleton(want) {
			return &Finding{What: "the tree has another structure", Expected: show(want), Actual: show(n)}
		}
		return nil
	})
	checkers["C04"] = mk(func(c Case) *Finding {
		n, err, want, ok := parseBoth(c)
		if err != nil || !ok {
			return nil
		}
		var a, b, o []string
		leaves(n, &a, &o)
		leaves(want, &b, &o)
		if strings.Join(a, "\x00") != strings.Join(b, "\x00") {
			return &Finding{What: "literals or names differ", Expected: show(want), Actual: show(n)}
		}
		return nil
	})
	c05 := mk(func(c Case) *Finding {
		n, err, want, ok := parseBoth(c)
		if err != nil || !ok {
			return nil
		}
		var a, b, o []string
		leaves(n, &o, &a)
		leaves(want, &o, &b)
		if strings.Join(a, "\x00") != strings.Join(b, "\x00") {
			return &Finding{What: "operators differ", Expected: show(want), Actual: show(n)}
		}
		return nil
	})
	c05.fixed = append(c05.fixed, spellings()...)
	checkers["C05"] = c05
}
