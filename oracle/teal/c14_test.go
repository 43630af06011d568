package teal

import (
	"fmt"
	"strings"
	"testing"
)

func gOps(o *vOracle) []Op {
	return []Op{Empty, &IntExpr{Value: uint64(o.R.Intn(9))}, &LabelExpr{Name: o.name()}, &BExpr{Label: &LabelExpr{Name: "a"}}, &ErrExpr{}, RetSub, &PragmaExpr{Version: 8}, &CommentExpr{Text: "x"}, &SwitchExpr{Targets: []*LabelExpr{{Name: "q"}, {Name: "a"}}}, &ProtoExpr{Args: 1, Results: 2}}
}

// gNest makes a nested expression and its flattening.
func gNest(o *vOracle, depth int, bad *bool) (Expr, []Op) {
	k := o.R.Intn(6)
	if depth == 0 || k < 3 {
		if bad != nil && o.R.Intn(12) == 0 {
			*bad = true
			return []any{42, "x", nil, 3.5, []Op{RetSub}}[o.R.Intn(5)], nil
		}
		ops := gOps(o)
		op := ops[o.R.Intn(len(ops))]
		return op, []Op{op}
	}
	n := o.R.Intn(5)
	l := make([]Expr, 0, n+o.R.Intn(3))
	var f []Op
	for i := 0; i < n; i++ {
		e, g := gNest(o, depth-1, bad)
		l = append(l, e)
		f = append(f, g...)
	}
	return l, f
}

func TestOracleC14(t *testing.T) {
	o := vNew(t, "random nestings of lists up to depth 5 with every slot an instruction or (in a third of the cases) a value that is no instruction; non-trivial: at least one nested list and two instructions; compared with direct flattening")
	for i := 0; i < o.N(20000) && !o.Expired(); i++ {
		var top []Expr
		var want []Op
		isBad := false
		var bad *bool
		if i%3 == 0 {
			bad = &isBad
		}
		nested := false
		for k := o.R.Intn(6); k > 0; k-- {
			e, f := gNest(o, 1+o.R.Intn(5), bad)
			_, isl := e.([]Expr)
			nested = nested || isl
			top = append(top, e)
			want = append(want, f...)
		}
		o.Case(fmt.Sprintf("#%d %#v", i, top), nested && len(want) > 1, func(fail func(string, string, any, any)) {
			var got Listing
			panicked := false
			func() {
				defer func() { panicked = recover() != nil }()
				got = Compile(top)
			}()
			if panicked != isBad {
				fail("panic", "panics exactly on a value that is no instruction", isBad, panicked)
				return
			}
			if isBad {
				return
			}
			if len(got) != len(want) {
				fail("len", "number of instructions", len(want), len(got))
				return
			}
			for k := range got {
				if got[k] != want[k] {
					fail("order", fmt.Sprint("instruction ", k), want[k], got[k])
					return
				}
			}
			var sb strings.Builder
			for _, w := range want {
				sb.WriteString(w.String() + "\n")
			}
			if got.String() != sb.String() || Program(top).String() != sb.String() {
				fail("text", "printed program", sb.String(), got.String())
			}
		})
	}
	o.Done()
}

func TestOracleC15(t *testing.T) {
	o := vNew(t, "listings of all programs of up to 5 lines over 8 line kinds and random programs; non-trivial: the optimizer removed something or a b/return/err/label is present; removed entries judged one by one on the original listing")
	check := func(l Listing, name string) {
		before := fmt.Sprintf("%q", l.String())
		nontrivial := false
		for _, op := range l {
			switch op.(type) {
			case *LabelExpr, *BExpr, *ReturnExpr, *ErrExpr:
				nontrivial = true
			}
		}
		o.Case(before, nontrivial, func(fail func(string, string, any, any)) {
			orig := append(Listing{}, l...)
			got := l.Optimize()
			for i := range orig {
				if l[i] != orig[i] {
					fail("input", "the input listing is unchanged", orig[i], l[i])
				}
			}
			// subsequence by identity (left-most match)
			kept := make([]bool, len(l))
			k := 0
			for i := range l {
				if k < len(got) && got[k] == l[i] {
					kept[i] = true
					k++
				}
			}
			if k != len(got) {
				fail("subsequence", "result is a subsequence", before, got.String())
				return
			}
			used := map[string]bool{}
			for _, op := range l {
				if u, ok := op.(interface{ Labels() []*LabelExpr }); ok {
					for _, x := range u.Labels() {
						used[x.Name] = true
					}
				}
			}
			defs, gdefs := map[string]bool{}, map[string]bool{}
			for _, op := range l {
				if x, ok := op.(*LabelExpr); ok {
					defs[x.Name] = true
				}
			}
			for _, op := range got {
				if x, ok := op.(*LabelExpr); ok {
					gdefs[x.Name] = true
				}
			}
			for _, op := range got {
				if u, ok := op.(interface{ Labels() []*LabelExpr }); ok {
					for _, x := range u.Labels() {
						if defs[x.Name] && !gdefs[x.Name] {
							fail("dangling", "label still defined: "+x.Name, before, got.String())
						}
					}
				}
			}
			isNop := func(op Op) bool { _, ok := op.(interface{ IsNop() }); return ok }
			for i, op := range l {
				if kept[i] {
					continue
				}
				okay := false
				if x, is := op.(*LabelExpr); is {
					okay = !used[x.Name]
				} else {
					// after an unconditional transfer, no kept label in between
				scan:
					for j := i - 1; j >= 0; j-- {
						switch x := l[j].(type) {
						case *LabelExpr:
							if used[x.Name] || kept[j] {
								break scan
							}
						case *BExpr, *ReturnExpr, *ErrExpr:
							okay = true
							break scan
						}
					}
					if b, is := op.(*BExpr); is && !okay {
						for j := i + 1; j < len(l); j++ {
							x, isl := l[j].(*LabelExpr)
							if isl && x.Name == b.Label.Name {
								okay = true
							}
							if isl && (used[x.Name] || kept[j]) || !isl && !isNop(l[j]) && kept[j] {
								break
							}
						}
					}
					if isNop(op) {
						okay = false
					}
				}
				if !okay {
					fail("removed", fmt.Sprintf("entry %d (%s) may not be removed", i, op.String()), before, got.String())
				}
			}
			// idempotent label structure: nothing is added
			if len(got) > len(l) {
				fail("added", "entries", len(l), len(got))
			}
		})
	}
	mk := func(src string) Listing {
		l := Process(src).Listing
		// distinct objects for identity matching
		out := make(Listing, len(l))
		for i, op := range l {
			switch op.(type) {
			case *EmptyExpr:
				out[i] = &CommentExpr{Text: fmt.Sprint(i)}
			case *RetSubExpr:
				out[i] = &RetSubExpr{}
			default:
				out[i] = op
			}
		}
		return out
	}
	gExhaustive([]string{"a:\n", "b:\n", "b a\n", "bz b\n", "err\n", "int 1\n", "\n", "retsub\n"}, 5, func(s string) { check(mk(s), s) })
	gExhaustive([]string{"a:\n", "b a\n", "proto 1 1\n", "callsub a\n", "return\n", "switch a a\n"}, 5, func(s string) { check(mk("#pragma version 8\n"+s), s) })
	for i := 0; i < o.N(6000) && !o.Expired(); i++ {
		s := o.gFlow(16)
		check(mk(s), s)
	}
	o.Done()
}
