package main

import (
	"regexp"
	"regexp/syntax"
	"testing"
	"unicode"
)

// TestReplacing compares the transducer of a replacement with the package regexp.
func TestReplacing(t *testing.T) {
	const runes = "abc-/ \n"
	for _, pattern := range []string{`(?:--|//)[^\r\n]*`, `\s+`, `a|ab`, `a|ab|c+?`, `(ab)*c|a`} {
		prog := compiled(pattern)
		preds := []func(r rune) bool{unicode.IsSpace}
		for _, c := range runes + "x" {
			preds = append(preds, func(r rune) bool { return r == c })
		}
		for i := range prog.Inst {
			switch in := &prog.Inst[i]; in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				preds = append(preds, in.MatchRune)
			}
		}
		a := newAlphabet(preds)
		re := regexp.MustCompile(pattern)
		var try func(s string, n int)
		try = func(s string, n int) {
			f := newFSA()
			f.start = f.state()
			end := f.state()
			f.path(f.start, a.word(s), end)
			f.final[end] = true
			w, ok := f.image(machine{prog, a}.replacing(a.word("x"))).single()
			got := ""
			for _, c := range w {
				got += string(a.rep[c])
			}
			if want := re.ReplaceAllString(s, "x"); !ok || got != want {
				t.Errorf("%q in %q: %q, want %q", pattern, s, got, want)
			}
			if n > 0 {
				for _, c := range runes {
					try(s+string(c), n-1)
				}
			}
		}
		try("", 4)
	}
}
