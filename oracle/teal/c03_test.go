package teal

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

const (
	chkLines = 1 << iota
	chkAccept
	chkValues
	chkVersions
	chkDiags
)

// rCheck compares Process with the reference line by line.
func rCheck(src string, mask int, fail func(string, string, any, any)) *ProcessResult {
	want := rProcess(src)
	r := Process(src)
	if len(r.Listing) != len(want) || len(r.Lines) != len(want) {
		fail("lines", "one listing entry and one line per source line", len(want), fmt.Sprint(len(r.Listing), " entries, ", len(r.Lines), " lines"))
		return r
	}
	parse := map[int]int{}
	vers := map[int][]uint64{}
	modes := map[int]int{}
	verf := map[int]int{}
	for _, v := range r.Versions {
		vers[v.Line] = append(vers[v.Line], v.Version)
	}
	for _, d := range r.Diagnostics {
		if d.Line() < 0 || d.Line() >= len(want) {
			if mask&chkDiags != 0 {
				fail("diagline", "diagnostic names an existing line", len(want), fmt.Sprint(d.Line(), d.String()))
			}
			continue
		}
		switch d.Rule() {
		case "PARSE":
			parse[d.Line()]++
		case "LINT0007":
			modes[d.Line()]++
		case "LINT0008":
			verf[d.Line()]++
			if n := want[d.Line()].needVer; mask&chkVersions != 0 && n != 0 && !strings.Contains(d.String(), fmt.Sprintf(">= %d ", n)) {
				fail("vertext", "version finding carries the required version", n, d.String())
			}
		}
		if mask&chkDiags != 0 {
			l := want[d.Line()].toks
			okb, oke, exact := false, false, false
			for _, t := range l {
				okb = okb || d.Begin() == t.b || d.Rule() == "SYNTAX" && d.Begin() == t.e
				oke = oke || d.End() == t.e
				exact = exact || d.Begin() == t.b && d.End() == t.e
			}
			if d.Rule() == "SYNTAX" {
				exact = true
			}
			if len(l) == 0 {
				okb, oke = d.Begin() == 0, d.End() == 0
			}
			if d.Begin() > d.End() || !okb || !oke || d.Rule() == "PARSE" && !exact {
				fail("diagcols", "columns come from the tokens of the line", fmt.Sprint(l), fmt.Sprint(d.Rule(), " ", d.Line(), ":", d.Begin(), "-", d.End(), " ", d.String()))
			}
		}
	}
	for i, w := range want {
		t := rOpType(r.Listing[i])
		bad := w.failed
		if bad {
			w.typ, w.fields = "", nil
		}
		txt := lineText(w)
		if mask&chkLines != 0 {
			if t != w.typ {
				fail("entry", "entry of line "+txt, "type "+w.typ, "type "+t)
			}
			n := 0
			if bad || w.surplus {
				n = 1
			}
			if parse[i] != n {
				fail("parse", "parse errors of line "+txt, n, parse[i])
			}
			var lt []string
			for _, x := range r.Lines[i] {
				lt = append(lt, x.String())
			}
			var wt []string
			for _, x := range w.toks {
				wt = append(wt, x.v)
			}
			if fmt.Sprintf("%q", lt) != fmt.Sprintf("%q", wt) {
				fail("linetoks", "tokens of the line", wt, lt)
			}
		}
		if mask&chkAccept != 0 {
			if (parse[i] > 0) != (bad || w.surplus) || (t == "") != (w.typ == "") {
				fail("accept", fmt.Sprintf("line %s at version %d (%s)", txt, w.ver, w.mode), fmt.Sprint("failed ", bad, " surplus ", w.surplus), fmt.Sprint(parse[i], " parse errors, entry type ", t))
			}
		}
		if mask&chkValues != 0 && t == w.typ {
			for _, f := range w.fields {
				k := strings.Index(f, "=")
				g, ok := rField(r.Listing[i], f[:k])
				if !ok || g != f[k+1:] {
					fail("value", fmt.Sprintf("immediate %s of line %s at version %d", f[:k], txt, w.ver), f[k+1:], g)
				}
			}
		}
		if mask&chkVersions != 0 {
			wm, wv := 0, 0
			var wl []uint64
			if w.badMode {
				wm = 1
			}
			if w.needVer > 0 {
				wv = 1
				wl = []uint64{w.needVer}
			}
			if modes[i] != wm {
				fail("mode", fmt.Sprintf("mode findings of line %s (%s)", txt, w.mode), wm, modes[i])
			}
			if verf[i] != wv || !reflect.DeepEqual(vers[i], wl) {
				fail("version", fmt.Sprintf("version findings of line %s at version %d (%s)", txt, w.ver, w.mode), fmt.Sprint(wv, wl), fmt.Sprint(verf[i], vers[i]))
			}
		}
	}
	if mask&chkVersions != 0 {
		last := uint64(1)
		sig := false
		for _, w := range want {
			if w.typ == "PragmaExpr" && !w.failed {
				fmt.Sscan(strings.TrimPrefix(w.fields[0], "Version="), &last)
			}
			sig = sig || len(w.toks) == 1 && w.toks[0].kind == "Comment" && strings.TrimSpace(w.toks[0].v) == "#pragma mode logicsig"
		}
		if r.Version != last {
			fail("progver", "program version", last, r.Version)
		}
		if sig != (r.Mode == ModeSig) {
			fail("progmode", "program mode is logicsig", sig, r.Mode)
		}
	}
	return r
}

func lineText(w rLine) string {
	var s []string
	for _, t := range w.toks {
		s = append(s, t.raw)
	}
	return fmt.Sprintf("%q", strings.Join(s, " "))
}

// isolated: the entry and parse errors of a line depend only on the line and on
// the version/mode lines before it.
func rIsolated(src string, fail func(string, string, any, any)) {
	want := rProcess(src)
	r := Process(src)
	if len(r.Listing) != len(want) || strings.ContainsAny(src, "\r") {
		return
	}
	ls := strings.Split(src, "\n")
	for i := range want {
		if i%3 != len(src)%3 {
			continue
		}
		var cut []string
		for k := 0; k <= i; k++ {
			c := ""
			if len(want[k].toks) > 0 && (want[k].toks[0].v == "#pragma" || want[k].toks[0].kind == "Comment") || k == i {
				c = ls[k]
			}
			cut = append(cut, c)
		}
		q := Process(strings.Join(cut, "\n"))
		if i < len(q.Listing) && !reflect.DeepEqual(q.Listing[i], r.Listing[i]) {
			fail("isolated", fmt.Sprintf("entry of line %d alone and in its program", i), fmt.Sprintf("%#v", q.Listing[i]), fmt.Sprintf("%#v", r.Listing[i]))
		}
	}
}

func TestOracleC03(t *testing.T) {
	o := vNew(t, "random programs mixing valid, invalid, blank, comment, label, pragma lines for every opcode and line ending; non-trivial: at least three lines with an instruction and a failing line; compared with a reference parser written from the property")
	check := func(src string) {
		n, f := 0, 0
		for _, w := range rProcess(src) {
			if w.failed {
				f++
			} else if w.typ != "" {
				n++
			}
		}
		o.Case(src, n+f > 2 && n > 0 && f > 0, func(fail func(string, string, any, any)) {
			rCheck(src, chkLines|chkDiags, fail)
			rIsolated(src, fail)
		})
	}
	for _, src := range []string{"", "\n", "\r\n", " ", "\n\n", "//", "a:", ":", "b", "#pragma", "#pragma version", "err", "zzz", "\"", "byte \"", "err\n\"x\nerr", "switch", "int 1 2\nint 3", "x: y\nerr"} {
		check(src)
	}
	gInit()
	for _, n := range sOpNames {
		for _, imm := range []string{"", " 1", " 1 2", " 1 2 3", " 1 2 3 4", " a", " 0x00", " \"x\"", " 256", " -1", " Sender", " 0 Accounts 0", " base64 AA==", " base64", " //c"} {
			check("#pragma version 8\nint 1\n" + n + imm + "\nerr\n")
		}
	}
	for i := 0; i < o.N(12000) && !o.Expired(); i++ {
		check(o.gProgram(14))
		check(o.gFlow(10))
		check(gBytes(o, 25))
	}
	o.Done()
}
