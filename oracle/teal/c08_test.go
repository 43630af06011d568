package teal

import (
	"fmt"
	"strings"
	"testing"
)

type vRange struct{ sl, sc, el, ec int }

func (r vRange) StartLine() int      { return r.sl }
func (r vRange) StartCharacter() int { return r.sc }
func (r vRange) EndLine() int        { return r.el }
func (r vRange) EndCharacter() int   { return r.ec }

func rOverlap(a, b vRange) bool {
	lines := a.sl <= b.el && b.sl <= a.el
	cols := a.sc <= b.ec && b.sc <= a.ec
	return lines && cols
}

type rSym struct {
	n       string
	l, b, e int
}

func rSymbols(src string) (defs, refs []rSym) {
	ts, _ := rTokens(src)
	for _, ln := range rLines(ts) {
		if len(ln) == 0 || ln[0].kind == "Comment" {
			continue
		}
		h := ln[0].v
		if strings.HasSuffix(h, ":") {
			if len(h) > 1 {
				defs = append(defs, rSym{h[:len(h)-1], ln[0].l, ln[0].b, ln[0].e})
			}
			continue
		}
		k := 0
		switch h {
		case "b", "bz", "bnz", "callsub":
			k = 1
		case "switch", "match":
			k = len(ln)
		}
		for i := 1; i < len(ln) && i <= k; i++ {
			refs = append(refs, rSym{ln[i].v, ln[i].l, ln[i].b, ln[i].e})
		}
	}
	return
}

func symsOf(ss []Symbol) (out []rSym) {
	for _, s := range ss {
		out = append(out, rSym{s.Name(), s.Line(), s.Begin(), s.End()})
		if s.StartLine() != s.Line() || s.EndLine() != s.Line() || s.StartCharacter() != s.Begin() || s.EndCharacter() != s.End() {
			out = append(out, rSym{"inconsistent range", 0, 0, 0})
		}
	}
	return
}

func refsOf(ss []Token) (out []rSym) {
	for _, s := range ss {
		out = append(out, rSym{s.String(), s.Line(), s.Begin(), s.End()})
	}
	return
}

func eqSyms(a, b []rSym) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func filterSyms(s []rSym, f func(rSym) bool) (out []rSym) {
	for _, x := range s {
		if f(x) {
			out = append(out, x)
		}
	}
	return
}

func TestOracleC08(t *testing.T) {
	o := vNew(t, "random programs of labels and branches with all queries on names and on ranges around every symbol, and all small ranges for the overlap test; non-trivial: at least one definition and one reference")
	// Overlaps on all small ranges
	for a := 0; a < 3*3*3*3*3*3*3*3; a++ {
		v := a
		d := func() int { x := v % 3; v /= 3; return x }
		x := vRange{d(), d(), d(), d()}
		y := vRange{d(), d(), d(), d()}
		o.Case(fmt.Sprint("Overlaps", x, y), true, func(fail func(string, string, any, any)) {
			if g, w := Overlaps(x, y), rOverlap(x, y); g != w {
				fail("overlaps", "Overlaps", w, g)
			}
		})
	}
	check := func(src string) {
		defs, refs := rSymbols(src)
		o.Case(src, len(defs) > 0 && len(refs) > 0, func(fail func(string, string, any, any)) {
			r := Process(src)
			if g := symsOf(r.Symbols); !eqSyms(g, defs) {
				fail("symbols", "symbol table", defs, g)
				return
			}
			if g := refsOf(r.SymbolRefs); !eqSyms(g, refs) {
				fail("refs", "reference table", refs, g)
				return
			}
			defined := map[string]bool{}
			for _, d := range defs {
				defined[d.n] = true
			}
			miss := filterSyms(refs, func(s rSym) bool { return !defined[s.n] })
			if g := refsOf(r.MissRefs); !eqSyms(g, miss) {
				fail("missrefs", "missing references", miss, g)
			}
			names := append([]string{"", "zz"}, gNames...)
			for _, d := range defs {
				names = append(names, d.n)
			}
			for _, n := range names {
				if w, g := filterSyms(defs, func(s rSym) bool { return s.n == n }), symsOf(r.SymByName(n)); !eqSyms(g, w) {
					fail("byname", "SymByName "+n, w, g)
				}
				if w, g := filterSyms(refs, func(s rSym) bool { return s.n == n }), refsOf(r.SymRefByName(n)); !eqSyms(g, w) {
					fail("refbyname", "SymRefByName "+n, w, g)
				}
			}
			var rgs []vRange
			for _, s := range append(append([]rSym{}, defs...), refs...) {
				rgs = append(rgs, vRange{s.l, s.b, s.l, s.b}, vRange{s.l, s.e, s.l, s.e}, vRange{s.l, s.e + 1, s.l, s.e + 1}, vRange{s.l - 1, s.b, s.l + 1, s.e}, vRange{s.l, s.b - 1, s.l, s.b - 1}, vRange{s.l, s.b, s.l + 3, s.e + 5})
			}
			rgs = append(rgs, vRange{-1, -1, 1 << 40, 1 << 40}, vRange{0, 0, 0, 0})
			for _, rg := range rgs {
				in := func(s rSym) bool { return rOverlap(rg, vRange{s.l, s.b, s.l, s.e}) }
				wd, wr := filterSyms(defs, in), filterSyms(refs, in)
				if g := symsOf(r.SymbolsWithin(rg)); !eqSyms(g, wd) {
					fail("symswithin", fmt.Sprint("SymbolsWithin ", rg), wd, g)
				}
				if g := refsOf(r.SymbolRefsWithin(rg)); !eqSyms(g, wr) {
					fail("refswithin", fmt.Sprint("SymbolRefsWithin ", rg), wr, g)
				}
				w := ""
				if len(wd) > 0 {
					w = wd[0].n
				} else if len(wr) > 0 {
					w = wr[0].n
				}
				if g := r.SymOrRefAt(rg); g != w {
					fail("symorref", fmt.Sprint("SymOrRefAt ", rg), w, g)
				}
				var wf []rSym
				if len(wr) > 0 {
					wf = filterSyms(defs, func(s rSym) bool { return s.n == wr[0].n })
				}
				if g := symsOf(r.SymbolsForRefWithin(rg)); !eqSyms(g, wf) {
					fail("forref", fmt.Sprint("SymbolsForRefWithin ", rg), wf, g)
				}
			}
		})
	}
	for i := 0; i < o.N(4000) && !o.Expired(); i++ {
		check(o.gFlow(14))
		check(o.gProgram(14))
	}
	o.Done()
}
