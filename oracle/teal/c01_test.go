package teal

import "testing"

func TestOracleC01(t *testing.T) {
	o := vNew(t, "all strings over 8 pieces up to length 5 and random byte strings; non-trivial: at least two tokens; compared with a reference tokenizer written from the property")
	check := func(src string) {
		want, errs := rTokens(src)
		o.Case(src, len(want) >= 2, func(fail func(string, string, any, any)) {
			r := Process(src)
			got := r.Tokens
			var diags []Diagnostic
			for _, d := range r.Diagnostics {
				if d.Rule() == "SYNTAX" {
					diags = append(diags, d)
				}
			}
			if len(got) != len(want) {
				fail("tokens", "number of tokens", want, got)
				return
			}
			for i, w := range want {
				g := got[i]
				if g.String() != w.v || string(g.Type()) != w.kind || g.Line() != w.l || g.Begin() != w.b || g.End() != w.e ||
					g.StartLine() != w.l || g.EndLine() != w.l || g.StartCharacter() != w.b || g.EndCharacter() != w.e {
					fail("tokens", "token differs", w, g)
					return
				}
			}
			if len(diags) != len(errs) {
				fail("errors", "lexer errors", errs, diags)
				return
			}
			for i, l := range errs {
				if diags[i].Line() != l {
					fail("errors", "line of the error", l, diags[i].Line())
				}
			}
			// the scanner itself: Scan/Curr/Return
			z := &Lexer{Source: []byte(src)}
			n := 0
			for z.Scan() {
				if n < len(got) && z.Curr() != got[n] {
					fail("scan", "Curr differs from the token list", got[n], z.Curr())
					return
				}
				n++
			}
			if n != len(got) {
				fail("scan", "tokens scanned", len(got), n)
			}
			if z.Scan() {
				fail("scan", "Scan after the end", false, true)
			}
		})
	}
	gExhaustive([]string{" ", "\n", "\r", "\"", "\\", "/", "a", "\xff"}, 5, func(s string) { check(s) })
	for i := 0; i < o.N(60000) && !o.Expired(); i++ {
		check(gBytes(o, 30))
	}
	for i := 0; i < o.N(5000) && !o.Expired(); i++ {
		check(o.gProgram(12))
	}
	o.Done()
}
