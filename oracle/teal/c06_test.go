package teal

import (
	"fmt"
	"strings"
	"testing"
)

func TestOracleC06(t *testing.T) {
	o := vNew(t, "every opcode at versions 0 to 12 in both modes with optional immediates present and absent, and every named field (and every name of the other field kinds) in every field position of every opcode at versions 1 to 11; non-trivial: an opcode line; compared with the version tables of the language")
	chk := func(src string) {
		o.Case(src, true, func(fail func(string, string, any, any)) { rCheck(src, chkVersions|chkAccept|chkValues, fail) })
	}
	for _, n := range sOpNames {
		op := sOps[n]
		for v := 0; v <= 12; v++ {
			for _, mode := range []string{"", "//#pragma mode logicsig\n"} {
				for _, opt := range []bool{false, true} {
					src := fmt.Sprintf("%s#pragma version %d\n%s\n", mode, v, strings.Join(sLine(o, op, opt), " "))
					chk(src)
				}
			}
		}
		for ai, a := range op.args {
			tab := a.kind
			if tab == "itxn" || tab == "txna" {
				tab = "txn"
			}
			if sFields[tab] == nil || tab == "const" {
				continue
			}
			var names []string
			for _, k := range []string{"txn", "global", "holding", "asset", "app", "acct", "vrf", "block", "ec", "b64", "json", "ecdsa", "const"} {
				for i, fn := range sFieldNames[k] {
					if k == tab || i < 2 {
						names = append(names, fn)
					}
				}
			}
			names = append(names, "sender", "Nope", "ApplicationArg", "0", "1", "255", "256", "-1", "")
			for _, fn := range names {
				for _, v := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10} {
					l := sLine(o, op, false)
					for len(l) <= ai+1 {
						l = append(l, "0")
					}
					l[ai+1] = fn
					chk(fmt.Sprintf("#pragma version %d\n%s\n", v, strings.Join(l, " ")))
				}
			}
		}
	}
	// version and mode changing in the middle of a program
	for i := 0; i < o.N(4000) && !o.Expired(); i++ {
		var ls []string
		for k := 0; k < 8; k++ {
			switch o.R.Intn(4) {
			case 0:
				ls = append(ls, fmt.Sprintf("#pragma version %d", o.R.Intn(12)))
			case 1:
				ls = append(ls, o.pick("// #pragma mode logicsig", "//#pragma mode logicsig", "//#pragma mode app", "// x", ""))
			default:
				n := sOpNames[o.R.Intn(len(sOpNames))]
				ls = append(ls, strings.Join(sLine(o, sOps[n], o.R.Intn(2) == 0), " "))
			}
		}
		chk(strings.Join(ls, "\n"))
	}
	o.Done()
}
