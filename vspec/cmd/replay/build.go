package main

import (
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"
	"vspec/spec"
)

// scopeCase is a list of queries, some of them blank or broken.
func scopeCase(g *gen) Case {
	n := g.n(5)
	if g.n(20) == 0 {
		n = g.n(40)
	}
	c := Case{Queries: []string{}}
	for ; n > 0; n-- {
		var s string
		switch g.n(8) {
		case 0:
			s = g.pick("", " ", "\t", "\n", "\r\n ", " ", " ", "\v", "\f", "​", "\u0085", "\x00", "-- c", "()", ")", "(", "a=1) or (1=1", "' '")
		case 1:
			s = g.mutate(g.query())
		default:
			s = g.query()
		}
		c.Queries = append(c.Queries, s)
	}
	return c
}

func init() {
	checkers["C06"] = &checker{gen: parserCase, tokens: 3, fixed: append(append([]Case{}, parserFixed...), spellings()...), run: func(c Case) *Finding {
		n, err := miniquery.Parse(c.Queries[0])
		if err != nil {
			return nil
		}
		accepted++
		was := show(n)
		text := miniquery.Build(n)
		again, err := miniquery.Parse(text)
		switch {
		case err != nil:
			return &Finding{What: "the formatted query does not parse", Expected: was, Actual: fmt.Sprintf("%q", text)}
		case show(again) != was || show(n) != was:
			return &Finding{What: "the formatted query parses to another tree", Expected: was, Actual: fmt.Sprintf("%q %s", text, show(again))}
		}
		return nil
	}}
	checkers["C07"] = &checker{gen: scopeCase, fixed: []Case{{Queries: []string{}}, {Queries: []string{""}}, {Queries: []string{" "}}, {Queries: []string{"", "a"}}, {Queries: []string{" ", "\t"}}, {Queries: []string{"a", "b", "c"}}}, run: func(c Case) *Finding {
		was := append([]string{}, c.Queries...)
		got, want := miniquery.Join(c.Queries), spec.Joined(was)
		accepted++
		if got != want {
			return &Finding{What: "the joined query is not the conjunction", Expected: fmt.Sprintf("%q", want), Actual: fmt.Sprintf("%q", got)}
		}
		if strings.Join(was, "\x01") != strings.Join(c.Queries, "\x01") {
			return &Finding{What: "the list of queries is changed", Expected: fmt.Sprintf("%q", was), Actual: fmt.Sprintf("%q", c.Queries)}
		}
		return nil
	}}
}
