package teal

import (
	"fmt"
	"testing"
)

func TestOracleC02(t *testing.T) {
	o := vNew(t, "arbitrary byte strings and programs, with every editor query at every position of a grid around the text (negative, inside, past the end, huge); non-trivial: at least one token")
	check := func(src string, full bool) {
		ts, _ := rTokens(src)
		o.Case(src, len(ts) > 0, func(fail func(string, string, any, any)) {
			r := Process(src)
			if r == nil {
				fail("nil", "Process returns a result", "result", nil)
				return
			}
			var ls, cs []int
			if full {
				for i := -2; i < len(r.Lines)+2; i++ {
					ls = append(ls, i)
				}
				for c := -2; c < 40; c++ {
					cs = append(cs, c)
				}
			} else {
				n := len(r.Lines)
				ls = []int{-1, 0, n - 1, n, o.R.Intn(n + 1)}
				cs = []int{-1, 0, 1, o.R.Intn(20), 1 << 30}
			}
			big := int(^uint(0) >> 1)
			ls = append(ls, big, -big-1)
			cs = append(cs, big, -big-1)
			for _, l := range ls {
				for _, c := range cs {
					func() {
						defer func() {
							if e := recover(); e != nil {
								fail("query", fmt.Sprintf("query at line %d column %d", l, c), "no panic", e)
							}
						}()
						r.ArgAt(l, c)
						r.ArgValsAt(l, c)
						r.DocAt(l, c)
						rg := vRange{l, c, l, c}
						r.SymOrRefAt(rg)
						r.SymbolsWithin(rg)
						r.SymbolRefsWithin(rg)
						r.SymbolsForRefWithin(rg)
						if l >= 0 && l < len(r.Lines) {
							r.Lines[l].ImmAt(c)
							r.Lines[l].Begin()
							r.Lines[l].End()
						}
						if c == cs[0] || full {
							r.InlayHints(rg)
							r.InlayHints(vRange{l, c, l + 1, 0})
							r.InlayHints(vRange{0, 0, l, c})
							r.InlayHints(vRange{l, 0, -1, c})
						}
					}()
				}
			}
			for _, d := range r.Diagnostics {
				_ = d.String()
				_ = d.Rule()
				_ = d.Severity()
			}
			for _, l := range r.Listing {
				_ = l
			}
		})
	}
	gInit()
	gExhaustive([]string{" ", "\n", "\r", "\"", "\\", "/", "b", ":"}, 5, func(s string) { check(s, false) })
	for _, n := range sOpNames {
		for _, imm := range []string{"", " ", " \"", " \"x", " 1", " x", " 1 2 3 4 5", " (", " 0x", " base64(", " //", " -1 -1", " 99999999999999999999"} {
			check(n+imm, true)
			check("#pragma version 8\n"+n+imm+"\nx:", false)
		}
	}
	for i := 0; i < o.N(6000) && !o.Expired(); i++ {
		check(gBytes(o, 25), i%7 == 0)
		check(o.gProgram(10), i%7 == 0)
		check(o.gFlow(10), i%50 == 0)
	}
	// long inputs: no quadratic blow-up that would look like a hang, no deep recursion
	for _, n := range []int{2000, 5000} {
		s := ""
		for i := 0; i < n; i++ {
			s += o.pick("b a\n", "a:\n", "int 1\n", "switch a b c\n", "\n", "bz b\n")
		}
		check(s, false)
	}
	o.Done()
}
