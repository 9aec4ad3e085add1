package main

import "strings"

var commonAssumptions = []string{
	"integers do not wrap around: texts, token lists and stacks are shorter than 2^31",
	"the stack of the goroutine does not overflow",
	"error values are not told apart, only nil and not nil",
	"other goroutines do not change the memory the functions use",
}

// units of the literals and names
var literalRules = map[string]bool{
	"rule Integer": true, "rule String": true, "rule Boolean": true, "rule Null": true, "rule Literal": true, "rule Array": true, "rule Value": true,
	"rule Identifier": true, "rule IdentifierReference": true, "rule Reference": true,
}

var operatorRules = map[string]bool{
	"rule Compare": true, "rule Logic": true, "rule Match": true, "rule CompareInExpression": true, "rule BetweenExpression": true, "rule PredicateExpression": true,
}

func properties() []*property {
	parser := matchUnits("lemmas", "Parse", "tokens32.Add", "rule *")
	parserAssume := []string{
		"strconv.Atoi and strconv.ParseBool: whether they fail and what they return depends on the text only",
		"NormalizeOperation gives the canonical operator for the text of an operator of the grammar (unit NormalizeOperation, checked by C05)",
		"the conversion of the text to runes: the parser works on []rune(text), invalid UTF-8 is U+FFFD",
	}
	kinds := func(o OblResult) string {
		switch {
		case hasAny(o.Name, "matches only", "ends where", "fails only", "restores the position", "reports an integer", "records no error", "a valid query", "an invalid query"):
			return "accept"
		case hasAny(o.Name, "builds the tree", "restores the marks", "restores the token index", "keeps the text", "the tree is the one", "tokens are added", "Execute", "a node shares", "token index", "the list grows", "the token", "a parse starts", "the buffer holds"):
			return "tree"
		}
		return "safe" // no-panic, preconditions, frames, termination, well-formedness
	}
	// an obligation of another kind that a loop or a precondition needs counts for all
	shared := func(o OblResult) bool { return hasAny(o.Name, "loop invariant", "precondition") }
	value := func(o OblResult) bool { return o.Unit == "Node.Value" }
	harmless := func(o OblResult) bool { return value(o) && !strings.HasPrefix(o.Name, "no-panic") }
	qlAssume := []string{
		"Parse is as specified (C01 to C05), and trees are well formed",
		"expressions of entql are not changed after they were built; they are compared by their content",
		"loggers have no effect on the query",
	}
	gorm := matchUnits("lemmas on values", "Node.Value", "GetOrParseSchema", "WireMiniQuery", "ApplyMiniQuery", "errors and conditions of gorm")
	gormAssume := []string{
		"Parse is as specified (C01 to C05), and trees are well formed",
		"gorm: Joins and Where do what they are named for and nothing else; the condition of a text binds its values to the placeholders in order; the text of a condition is no number; a translated error is an error; QuoteTo writes the quoted name, which depends on the dialect and the name only",
		"gorm: the schema of a statement is not changed while a query is applied; the pointers in its lists and maps, the statement of a DB and the schema of a relation are not nil; a field with a column is found by the name of the column; Statement.Parse sets a schema or fails",
		"strings.EqualFold is the comparison of names ignoring case; strings.Builder writes do not fail",
	}
	gormShared := []string{"loop invariant", "precondition", "not vacuous", "AddError keeps", "Where takes"}
	esql := matchUnits("lemmas on values", "Node.Value", "MiniQLToEntSQLBuilder.Query", "bound values", "builder of ent")
	esqlAssume := []string{
		"Parse is as specified (C01 to C05), and trees are well formed",
		"the results of Node.Value have no methods",
		"ent: the qualifier of the builder is empty; what the functions of strings and xstrings.ToSnakeCase give depends on the texts they get only",
		"ent: HasNeighbors and HasNeighborsWith set the condition of the selector; its text depends on the dialect, the table and the schema of the selector, the step and the text of the condition only; the condition is rendered once, as the only part with arguments",
		"ent: a builder without text is the same as one with an empty text",
		"the nodes of the graph have an id, its edges two ends and a specification that ent accepts; the graph is not changed while a query is rendered",
		"reflection gives the field of the selector that it is asked for",
	}
	esqlShared := []string{"loop invariant", "precondition", "not vacuous", "AddError", "Err ", "Ident", "what Ident"}
	esqlText := []string{"the text of the node", "the arguments of the node", "the number of arguments", "what is rendered for the caller", "the text is", "the arguments are", "the value for the driver", "the driver gets", "what is bound has"}
	return []*property{
		{id: "C01", units: matchUnits("lemmas", "Parse", "messages of errors", "tokens32.Add", "rule *"), seconds: 8, longer: 40, tokens: 3,
			assume: append([]string{"fmt.Sprintf, strconv.Quote and sort.Ints do not panic, and sort.Ints keeps the number of elements"}, parserAssume...),
			mine:   func(o OblResult) bool { return kinds(o) == "safe" }},
		{id: "C02", units: parser, seconds: 8, longer: 40, tokens: 3, assume: parserAssume,
			mine: func(o OblResult) bool { return kinds(o) == "accept" || shared(o) }},
		{id: "C03", units: parser, seconds: 8, longer: 40, tokens: 3, assume: parserAssume,
			mine: func(o OblResult) bool {
				return shared(o) || kinds(o) == "tree" && !(literalRules[o.Unit] && strings.HasPrefix(o.Name, "builds"))
			}},
		{id: "C04", units: parser, seconds: 8, longer: 40, tokens: 3, assume: parserAssume,
			mine: func(o OblResult) bool {
				return strings.HasPrefix(o.Name, "reports an integer") || kinds(o) == "tree" && (literalRules[o.Unit] || !strings.HasPrefix(o.Unit, "rule")) || shared(o) && literalRules[o.Unit]
			}},
		{id: "C05", units: matchUnits("lemmas", "Parse", "tokens32.Add", "rule *", "NormalizeOperation"), seconds: 8, longer: 40, tokens: 3,
			assume: []string{parserAssume[0], parserAssume[2],
				"regexp replaces the leftmost matches, preferred as in Perl; strings.TrimSpace, ToLower and ToUpper work rune by rune with the tables of unicode (the languages of operator texts are read off the specification, their images are computed as finite automata)"},
			mine: func(o OblResult) bool {
				return hasAny(o.Name, "every spelling of") || kinds(o) == "tree" && (operatorRules[o.Unit] || !strings.HasPrefix(o.Unit, "rule")) || shared(o) && operatorRules[o.Unit]
			}},
		{id: "C06", units: matchUnits("lemmas", "Node.Value", "Build"), seconds: 15, longer: 40, tokens: 3, mine: every,
			bounded: []string{"the grammar gives the tree back for the text that the contract of Build describes"},
			assume: []string{
				"Parse is as specified (C01 to C05)",
				"fmt.Fprint writes an int as strconv.Itoa does and a bool as true or false; strings.Builder writes do not fail",
			}},
		{id: "C07", units: matchUnits("lemmas", "Join"), seconds: 8, longer: 30, mine: every,
			assume: []string{"strings.TrimSpace gives the empty text exactly for blank texts; strings.Builder writes do not fail"}},
		{id: "C08", units: matchUnits("Visitor.Visit", "Visitor.Init"), seconds: 8, longer: 30, tokens: 3, mine: every,
			assume: []string{
				"callbacks of the caller do not change the tree; a node that is passed on is compared by its content, not by its address",
				"trees are well formed (C01)",
			}},
		{id: "C09", units: gorm, seconds: 8, longer: 40, tokens: 3, assume: gormAssume,
			mine: func(o OblResult) bool {
				return value(o) || hasAny(o.Name, append(gormShared, "what is written is no text", "what is quoted is", "the condition is what was written", "there are as many values", "there is a value for every",
					"the values of the node", "the statement has the condition", "the query is applied once", "the statement is the one of the query")...)
			}},
		{id: "C10", units: gorm, seconds: 8, longer: 40, tokens: 3, assume: gormAssume,
			mine: func(o OblResult) bool {
				return value(o) || hasAny(o.Name, append(gormShared, "the text of the node", "the values of the node", "the condition is", "the statement has the condition", "the empty query", "the query is applied once", "the statement is the one of the query", "nothing else")...)
			}},
		{id: "C11", units: gorm, seconds: 8, longer: 40, tokens: 3, assume: gormAssume,
			mine: func(o OblResult) bool {
				return !value(o) && hasAny(o.Name, append(gormShared, "the names of the node", "the relations of the node", "the statement has the condition", "the query is applied once", "the statement is the one of the query", "what is quoted is", "the schema is the one")...)
			}},
		{id: "C12", units: gorm, seconds: 8, longer: 40, tokens: 3, assume: gormAssume,
			mine: func(o OblResult) bool {
				return !harmless(o) && !hasAny(o.Name, "what is written is no text", "what is quoted is", "the condition is what was written", "the text of the node", "the values of the node", "the names of the node", "the relations of the node", "the condition is added once")
			}},
		{id: "C13", units: matchUnits("lemmas", "Join", "MiniQuery.Scope"), seconds: 8, longer: 30, mine: every,
			assume: append([]string{"WireMiniQuery is as specified (C09 to C12)", "strings.TrimSpace gives the empty text exactly for blank texts"}, gormAssume[0], gormAssume[1])},
		{id: "C14", units: esql, seconds: 8, longer: 40, tokens: 3, assume: esqlAssume,
			mine: func(o OblResult) bool {
				return value(o) || hasAny(o.Name, append(append(esqlShared, esqlText...), "value:")...)
			}},
		{id: "C15", units: func(all []string) []string { return append(esql(all), matchUnits("Node.String")(all)...) }, seconds: 8, longer: 40, tokens: 3, assume: esqlAssume,
			mine: func(o OblResult) bool {
				return !harmless(o) && !hasAny(o.Name, append(esqlText, "value:", "edge: the", "the placeholder is cast")...)
			}},
		{id: "C16", units: esql, seconds: 8, longer: 40, tokens: 3, assume: esqlAssume,
			mine: func(o OblResult) bool {
				return value(o) || hasAny(o.Name, append(esqlShared, "value:", "the text is", "the arguments are", "the value for the driver", "the driver gets", "what is bound has", "the placeholder is cast")...)
			}},
		{id: "C17", units: esql, seconds: 8, longer: 40, tokens: 3, assume: esqlAssume,
			mine: func(o OblResult) bool {
				return !value(o) && hasAny(o.Name, append(esqlShared, "edge:", "the recursion ends", "the text is", "the arguments are", "the number of arguments")...)
			}},
		{id: "C18", units: matchUnits("lemmas entql", "lemmas on values", "Node.Value", "MiniQLToEntQLBuilder.Build", "BuildEntQL"), seconds: 8, longer: 40, tokens: 3, assume: qlAssume,
			mine: func(o OblResult) bool {
				return value(o) || hasAny(o.Name, "the expression of the node", "the predicate is", "loop invariant", "precondition", "part ", "not vacuous")
			}},
		{id: "C19", units: matchUnits("lemmas entql", "lemmas on values", "Node.Value", "MiniQLToEntQLBuilder.Build", "BuildEntQL", "ApplyEntQL"), seconds: 8, longer: 40, tokens: 3, assume: qlAssume,
			mine: func(o OblResult) bool {
				return !harmless(o) && !hasAny(o.Name, "the expression of the node", "the predicate is")
			}},
	}
}

func every(OblResult) bool { return true }
