package teal

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// rNode is the view of a listing entry the label rules need.
type rNode struct {
	kind string // empty, label, b, stop (return, err), use, pragma, op, retsub
	name string
	uses []string
}

func rNodes(src string) (out []rNode) {
	for _, w := range rProcess(src) {
		n := rNode{kind: "op"}
		switch {
		case w.failed || w.typ == "":
			n.kind = "empty"
		case w.typ == "LabelExpr":
			n.kind, n.name = "label", strings.TrimPrefix(w.fields[0], "Name=")
		case w.typ == "PragmaExpr":
			n.kind = "pragma"
		case w.typ == "BExpr":
			n.kind, n.uses = "b", []string{strings.TrimPrefix(w.fields[0], "Label=")}
		case w.typ == "BzExpr" || w.typ == "BnzExpr" || w.typ == "CallSubExpr":
			n.uses = []string{strings.TrimPrefix(w.fields[0], "Label=")}
		case w.typ == "SwitchExpr" || w.typ == "MatchExpr":
			for _, t := range w.toks[1:] {
				n.uses = append(n.uses, t.v)
			}
		case w.typ == "ReturnExpr" || w.typ == "ErrExpr":
			n.kind = "stop"
		case w.typ == "RetSubExpr":
			n.kind = "retsub"
		}
		out = append(out, n)
	}
	return
}

func sorted(s []string) []string {
	sort.Strings(s)
	return s
}

// findings renders the findings of a rule as "line text" strings.
func findings(r *ProcessResult, rule string, text func(string) bool) (out []string) {
	for _, d := range r.Diagnostics {
		if d.Rule() == rule && text(d.String()) {
			out = append(out, fmt.Sprintf("%d %s", d.Line(), d.String()))
		}
	}
	return sorted(out)
}

func hasPre(p string) func(string) bool { return func(s string) bool { return strings.HasPrefix(s, p) } }

func reds(r *ProcessResult, f func(RedundantLine) bool) (out []string) {
	for _, d := range r.Redundants {
		if f(d) {
			out = append(out, fmt.Sprintf("%d %s", d.Line(), d.String()))
		}
	}
	return sorted(out)
}

func cmp(fail func(string, string, any, any), key, what string, want, got []string) {
	if strings.Join(sorted(want), "\n") != strings.Join(got, "\n") {
		fail(key, what, strings.Join(want, "; "), strings.Join(got, "; "))
	}
}

func rLabelRules(src string, r *ProcessResult, fail func(string, string, any, any)) {
	ns := rNodes(src)
	defs, used := map[string]int{}, map[string]int{}
	for _, n := range ns {
		if n.kind == "label" {
			defs[n.name]++
		}
		for _, u := range n.uses {
			used[u]++
		}
	}
	var dup, unu, red, mis []string
	for i, n := range ns {
		if n.kind == "label" && defs[n.name] > 1 {
			dup = append(dup, fmt.Sprintf("%d duplicate label: \"%s\"", i, n.name))
		}
		if n.kind == "label" && used[n.name] == 0 {
			unu = append(unu, fmt.Sprintf("%d unused label: \"%s\"", i, n.name))
			red = append(red, fmt.Sprintf("%d Remove label '%s'", i, n.name))
		}
		for _, u := range n.uses {
			if defs[u] == 0 {
				mis = append(mis, fmt.Sprintf("%d missing label: \"%s\"", i, u))
			}
		}
	}
	any := func(string) bool { return true }
	cmp(fail, "duplicate", "duplicate label findings", dup, findings(r, "LINT0001", any))
	cmp(fail, "unused", "unused label findings", unu, findings(r, "LINT0002", any))
	cmp(fail, "missing", "missing label findings", mis, findings(r, "LINT0005", hasPre("missing")))
	cmp(fail, "redundant", "redundant labels", red, reds(r, func(l RedundantLine) bool { _, ok := l.(*RedundantLabelLine); return ok }))
	sev := map[string]DiagnosticSeverity{"LINT0001": DiagErr, "LINT0002": DiagWarn}
	for _, d := range r.Diagnostics {
		if s, ok := sev[d.Rule()]; ok && d.Severity() != s {
			fail("severity", d.Rule(), s, d.Severity())
		}
	}
}

func rFlowRules(src string, r *ProcessResult, fail func(string, string, any, any)) {
	ns := rNodes(src)
	used := map[string]bool{}
	for _, n := range ns {
		for _, u := range n.uses {
			used[u] = true
		}
	}
	var unr, jb, red, inf, prg []string
	dead, seen := false, false
	for i, n := range ns {
		switch n.kind {
		case "label":
			if used[n.name] {
				dead = false
			}
		case "empty", "pragma":
		default:
			if dead {
				unr = append(unr, fmt.Sprintf("%d unreachable code", i))
			}
			if n.kind == "b" || n.kind == "stop" {
				dead = true
			}
		}
		if n.kind == "pragma" && seen {
			prg = append(prg, fmt.Sprintf("%d #pragma version is only allowed before instructions", i))
		}
		if n.kind != "empty" && n.kind != "label" {
			seen = true
		}
		if n.kind != "b" {
			continue
		}
		j := i + 1
		for j < len(ns) && (ns[j].kind == "empty" || ns[j].kind == "pragma") {
			j++
		}
		if j < len(ns) && ns[j].kind == "label" && ns[j].name == n.uses[0] {
			jb = append(jb, fmt.Sprintf("%d unconditional branch just before the target label", i))
			red = append(red, fmt.Sprintf("%d Remove b call", i))
		}
		for j = i - 1; j >= 0; j-- {
			if ns[j].kind == "label" && ns[j].name == n.uses[0] {
				break
			}
		}
		if j < 0 {
			continue
		}
		esc := false
		for k := j; k <= i; k++ {
			if ns[k].kind == "stop" || ns[k].kind == "retsub" {
				esc = true
			}
			for _, u := range ns[k].uses {
				for q, m := range ns {
					if m.kind == "label" && m.name == u && (q < j || q > i) {
						esc = true
					}
				}
			}
		}
		if !esc {
			inf = append(inf, fmt.Sprintf("%d infinite loop", i))
		}
	}
	any := func(string) bool { return true }
	cmp(fail, "unreachable", "unreachable code findings", unr, findings(r, "LINT0003", any))
	cmp(fail, "bjustbefore", "redundant b findings", jb, findings(r, "LINT0004", any))
	cmp(fail, "redundantb", "redundant b lines", red, reds(r, func(l RedundantLine) bool { _, ok := l.(RedundantBLine); return ok }))
	cmp(fail, "infinite", "infinite loop findings", inf, findings(r, "LINT0005", func(s string) bool { return !strings.HasPrefix(s, "missing") }))
	cmp(fail, "pragma", "misplaced pragma findings", prg, findings(r, "LINT0006", any))
}

// gLabels enumerates short programs over a few line kinds, then samples longer ones.
func gLabels(o *vOracle, f func(string)) {
	gExhaustive([]string{"a:\n", "b:\n", "b a\n", "bz b\n", "err\n", "pop\n", "\n"}, 5, f)
	gExhaustive([]string{"a:\n", "b a\n", "switch a c a\n", "#pragma version 8\n", "retsub\n", "callsub c\n"}, 4, f)
	for i := 0; i < o.N(8000) && !o.Expired(); i++ {
		f(o.gFlow(14))
		if i%4 == 0 {
			f(o.gProgram(14))
		}
	}
}

func TestOracleC04(t *testing.T) {
	o := vNew(t, "all programs of up to 5 lines over 7 line kinds and up to 4 lines over 6 others, and random programs of labels, branches and multi-target instructions; non-trivial: a label and a reference; compared with multiplicities counted directly")
	gLabels(o, func(src string) {
		d, u := false, false
		for _, n := range rNodes(src) {
			d = d || n.kind == "label"
			u = u || len(n.uses) > 0
		}
		o.Case(src, d && u, func(fail func(string, string, any, any)) { rLabelRules(src, Process(src), fail) })
	})
	o.Done()
}

func TestOracleC05(t *testing.T) {
	o := vNew(t, "same programs as C04; non-trivial: a b or a terminator followed by something; compared with the flow rules evaluated directly on the listing")
	gLabels(o, func(src string) {
		d := false
		ns := rNodes(src)
		for i, n := range ns {
			d = d || (n.kind == "b" || n.kind == "stop") && i+1 < len(ns)
		}
		o.Case(src, d, func(fail func(string, string, any, any)) { rFlowRules(src, Process(src), fail) })
	})
	o.Done()
}
