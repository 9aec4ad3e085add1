package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// gen makes query texts: sentences of the documented grammar, and mutations of
// them.
type gen struct {
	r     *rand.Rand
	words []string // texts that occur in the source under check
	names []string // words that are names
	nums  []string
	plain bool // no comments, few blanks
	noBad bool // no integers out of range
	few   int  // how many of the names are likely

	rels, relCols []string // names of relations and of their columns
	funcs         []string // names of functions
}

func newGen(seed int64, words []string, nums []string) *gen {
	g := &gen{r: rand.New(rand.NewSource(seed)), words: words, few: 24, funcs: []string{"date", "date", "date", "DATE", "now", "has_edge"}}
	g.names = []string{
		"a", "b", "x1", "id", "name", "Name", "age", "Age", "AGE", "user_name", "userName", "UserName", "created_at", "CreatedAt", "full_name", "fullName", "FullName",
		"a_b", "A", "nullable", "trueish", "falsey", "nul", "tru", "index", "andy", "orange", "island", "isnullx", "liked", "betweenx", "gtx", "ltx", "eqx", "date", "DATE", "Date", "datex", "has_edge", "hasedge", "now", "count",
		"Profile", "profile", "Company", "company", "pets", "owner", "z9_", "Z_9", "notified", "nOtx", "n", "t", "f", "i", "in_x", "d1", "username", "Username", "no_such_field", "ignored", "Ignored", "note",
	}
	for _, w := range words {
		if isName(w) {
			g.names = append(g.names, w)
		}
	}
	g.nums = append([]string{"0", "1", "7", "42", "10", "100", "2147483647", "2147483648", "4294967296", "9007199254740993", "9223372036854775807"}, nums...)
	return g
}

func isName(s string) bool {
	for i, c := range s {
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !al && (i == 0 || c != '_' && (c < '0' || c > '9')) {
			return false
		}
	}
	return s != ""
}

func (g *gen) n(k int) int { return g.r.Intn(k) }

func (g *gen) pick(xs ...string) string { return xs[g.n(len(xs))] }

// sp is optional space, sp1 is required space.
func (g *gen) sp() string {
	switch g.n(12) {
	case 0, 1, 2, 3, 4, 5:
		return ""
	case 6, 7, 8:
		return " "
	}
	return g.sp1()
}

func (g *gen) sp1() string {
	if g.plain || g.n(3) > 0 {
		return " "
	}
	var b strings.Builder
	for n := 1 + g.n(3); n > 0; n-- {
		b.WriteString(g.pick(" ", " ", "\t", "\n", "\r\n", "\r", "-- c\n", "// c\r\n", "--\n", "// is not\r", "-- 'x\n", "//)\n"))
	}
	return b.String()
}

func (g *gen) word(s string) string {
	switch g.n(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		var b strings.Builder
		for _, c := range s {
			if g.n(2) == 0 {
				b.WriteString(strings.ToUpper(string(c)))
			} else {
				b.WriteRune(c)
			}
		}
		return b.String()
	}
	return s
}

func (g *gen) ident() string {
	if g.n(6) == 0 {
		n := 1 + g.n(4)
		if g.n(8) == 0 {
			n = 1 + g.n(70)
		}
		var b strings.Builder
		const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
		b.WriteByte(al[g.n(len(al))])
		for ; n > 1; n-- {
			const more = al + "0123456789__"
			b.WriteByte(more[g.n(len(more))])
		}
		return b.String()
	}
	if g.n(3) > 0 {
		return g.names[g.n(min(len(g.names), g.few))]
	}
	return g.names[g.n(len(g.names))]
}

func (g *gen) str() string {
	var s string
	switch g.n(8) {
	case 0:
		s = ""
	case 1:
		if len(g.words) > 0 {
			s = g.words[g.n(len(g.words))]
		}
	case 2:
		s = g.pick("?", "a?b", "$1", "%", "%a%", "_", "@x", ":y", "\\", "\\n", "a\\'", "--", "//", "null", "true", "''", "\"\"", "`", ";", "€", "日本", " ", "\ufeff", "\x00", "\x7f", "a\nb", "\r\n", "\t", "0", "1", "NULL", "1 or 1=1")
	case 3:
		for n := g.n(40); n > 0; n-- {
			s += string(rune(32 + g.n(95)))
		}
	default:
		for n := g.n(6); n > 0; n-- {
			s += g.pick("a", "b", "'", "\"", " ", "x", "1", "é", "%")
		}
	}
	q := g.pick("'", "\"")
	return q + strings.ReplaceAll(s, q, "") + q
}

func (g *gen) literal() string {
	switch g.n(8) {
	case 0, 1, 2:
		return g.str()
	case 3, 4:
		if g.n(5) == 0 {
			return fmt.Sprint(g.n(100000))
		}
		if !g.noBad && g.n(40) == 0 {
			return g.pick("9223372036854775808", "99999999999999999999999")
		}
		return g.nums[g.n(len(g.nums))]
	case 5:
		return g.pick("true", "TRUE")
	case 6:
		return g.pick("false", "FALSE")
	}
	return g.pick("null", "NULL")
}

func (g *gen) list(open, shut string, item func() string, most int) string {
	n := g.n(most + 1)
	if g.n(60) == 0 {
		n = g.n(24)
	}
	b := open + g.sp()
	for i := 0; i < n; i++ {
		if i > 0 {
			b += g.sp() + "," + g.sp()
		}
		b += item()
	}
	if n > 0 && g.n(8) == 0 {
		b += g.sp() + ","
	}
	return b + g.sp() + shut
}

func (g *gen) array() string {
	if g.n(2) == 0 {
		return g.list("(", ")", g.literal, 4)
	}
	return g.list("[", "]", g.literal, 4)
}

func (g *gen) value() string {
	if g.n(7) == 0 {
		return g.array()
	}
	return g.literal()
}

func (g *gen) primary(d int) string {
	k := g.n(12)
	switch {
	case k < 4:
		return g.ident()
	case k < 7:
		return g.value()
	case k == 7:
		s := g.ident() + "." + g.ident()
		for g.n(4) == 0 {
			s += "." + g.ident()
		}
		return s
	case k < 10 && d > 0:
		return "(" + g.sp() + g.expr(d-1) + g.sp() + ")"
	case d > 0:
		return g.ident() + g.list("(", ")", func() string { return g.expr(d - 1) }, 3)
	}
	return g.ident()
}

func (g *gen) between(d int) string {
	s := g.primary(d)
	if g.n(7) > 0 {
		return s
	}
	s += g.sp1()
	if g.n(3) == 0 {
		s += g.word("not") + g.sp1()
	}
	s += "between" + g.sp1()
	if g.n(4) == 0 {
		return s + "[" + g.sp() + g.value() + g.sp() + "," + g.sp() + g.value() + g.sp() + "]"
	}
	return s + g.value() + g.sp1() + g.word("and") + g.sp1() + g.value()
}

func (g *gen) predicate(d int) string {
	s := g.between(d)
	if g.n(6) > 0 {
		return s
	}
	s += g.sp1()
	switch g.n(6) {
	case 0:
		return s + "isnull"
	case 1:
		return s + "notnull"
	}
	s += "is" + g.sp1()
	if g.n(2) == 0 {
		s += "not" + g.sp1()
	}
	return s + g.pick("null", "true", "false")
}

func (g *gen) compareIn(d int) string {
	s := g.predicate(d)
	if g.n(7) > 0 {
		return s
	}
	s += g.sp1()
	if g.n(3) == 0 {
		s += g.word("not") + g.sp1()
	}
	return s + g.word("in") + g.sp() + g.array()
}

func (g *gen) compare(d int) string {
	s := g.compareIn(d)
	for g.n(2) == 0 {
		switch g.n(3) {
		case 0, 1:
			s += g.sp() + g.pick("=", "==", "!=", "<>", "<", "<=", ">", ">=") + g.sp()
		default:
			s += g.sp1()
			op := g.pick("eq", "neq", "lt", "lte", "gt", "gte", "like", "not like")
			if op == "not like" {
				s += g.word("not") + g.sp1() + g.word("like")
			} else {
				s += g.word(op)
			}
			s += g.sp1()
		}
		s += g.compareIn(d)
	}
	return s
}

func (g *gen) not(d int) string {
	if g.n(7) == 0 {
		return g.word("not") + g.sp1() + g.compare(d)
	}
	return g.compare(d)
}

func (g *gen) expr(d int) string {
	s := g.not(d)
	for g.n(3) == 0 {
		if g.n(3) == 0 {
			s += g.sp() + g.pick("&&", "||") + g.sp()
		} else {
			s += g.sp1() + g.word(g.pick("and", "or")) + g.sp1()
		}
		s += g.not(d)
	}
	return s
}

// query is a sentence of the grammar, most of the time.
func (g *gen) query() string { return g.sp() + g.expr(g.n(4)) + g.sp() }

// named is a query whose names are likely to be known.
func (g *gen) named(d int) string {
	name := func() string {
		if len(g.rels) > 0 && g.n(4) == 0 {
			s := g.rels[g.n(len(g.rels))] + "." + g.relCols[g.n(len(g.relCols))]
			if g.n(30) == 0 {
				s += "." + g.relCols[g.n(len(g.relCols))]
			}
			return s
		}
		return g.names[g.n(g.few)]
	}
	var cond func(d int) string
	operand := func(d int) string {
		switch g.n(9) {
		case 0, 1, 2, 3:
			return name()
		case 4:
			return g.value()
		case 5:
			f := g.funcs[g.n(len(g.funcs))]
			var ps []string
			for n := g.n(3); n >= 0 && g.n(12) > 0; n-- {
				switch g.n(4) {
				case 0:
					ps = append(ps, g.literal())
				case 1:
					if d > 0 {
						ps = append(ps, cond(d-1))
					}
				default:
					ps = append(ps, name())
				}
			}
			return f + "(" + strings.Join(ps, ", ") + ")"
		case 6:
			if d > 0 {
				return "(" + cond(d-1) + ")"
			}
		}
		return name()
	}
	atom := func(d int) string {
		x := operand(d)
		switch g.n(14) {
		case 0:
			return x + " between " + g.value() + " and " + g.value()
		case 1:
			return x + " not between " + g.literal() + " and " + g.literal()
		case 2:
			return x + g.pick(" is null", " is not null", " isnull", " notnull", " is true", " is not false")
		case 3:
			return x + g.pick(" in ", " not in ") + g.array()
		case 4:
			return x + g.pick(" like ", " not like ") + g.literal()
		case 5:
			return x + g.pick(" = ", " < ", " >= ") + operand(d) + g.pick(" = ", " != ", " > ") + operand(d)
		case 6:
			if d > 0 {
				return "(" + cond(d-1) + ")"
			}
		}
		return x + g.pick(" = ", "==", " != ", " <> ", " < ", "<=", " > ", " >= ", " eq ", " neq ", " gte ") + operand(d)
	}
	cond = func(d int) string {
		s := ""
		if g.n(6) == 0 {
			s = "not "
		}
		s += atom(d)
		for g.n(3) == 0 {
			s += g.pick(" and ", " or ", " && ", " || ", " AND ")
			if g.n(8) == 0 {
				s += "not "
			}
			s += atom(d)
		}
		return s
	}
	return cond(g.n(d + 1))
}

// mutate changes a text here and there.
func (g *gen) mutate(s string) string {
	r := []rune(s)
	for n := 1 + g.n(2); n > 0; n-- {
		i := g.n(len(r) + 1)
		switch g.n(5) {
		case 0:
			if i < len(r) {
				r = append(r[:i:i], r[i+1:]...)
			}
		case 1, 2:
			ins := []rune(g.pick("(", ")", "[", "]", ",", ".", "'", "\"", " ", "  ", "=", "<", ">", "!", "&", "|", "-", "--", "//", "/", "\n", "\r", "not ", " not", "and", " or ", " in ", "is ", "null", "between", "a", "1", "0", "_", "é", " ", " ", ":", "@", "#", ";", "+", "*", "$", "like"))
			r = append(r[:i:i], append(ins, r[i:]...)...)
		case 3:
			if i < len(r) {
				r = r[:i:i]
			}
		case 4:
			if j := g.n(len(r) + 1); i < j {
				r = append(r[:i:i], r[j:]...)
			}
		}
	}
	return string(r)
}

// tokens are the pieces of the exhaustive enumeration.
var tokens = []string{
	"a", " ", "1", "0", "'s'", "\"\"", "null", "true", "FALSE", "(", ")", "[", "]", ",", ".", "not", "and", "or", "&&", "||", "=", "<", "<=", "<>", "!=", "eq", "gte", "like", "in", "between", "is", "isnull", "--\n", "f(", "\n", "!", "-", "'",
}

// enumerate calls f on every sequence of at most n tokens, until it returns false.
func enumerate(n int, f func(s string) bool) bool {
	var rec func(s string, n int) bool
	rec = func(s string, n int) bool {
		if !f(s) {
			return false
		}
		if n == 0 {
			return true
		}
		for _, t := range tokens {
			if !rec(s+t, n-1) {
				return false
			}
		}
		return true
	}
	return rec("", n)
}
