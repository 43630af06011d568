package teal

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestOracleC16(t *testing.T) {
	o := vNew(t, "lines of every opcode with every immediate kind at its boundaries, every named field and numbers without a name, labels, pragmas and byte literals of random bytes; non-trivial: the line parses to an instruction; the printed text is processed again at the same version and mode")
	check := func(line string, ver int) {
		head := fmt.Sprintf("#pragma version %d\n", ver)
		r := Process(head + line)
		ok := len(r.Listing) == 2
		for _, d := range r.Diagnostics {
			if d.Rule() == "PARSE" || d.Rule() == "SYNTAX" {
				ok = false
			}
		}
		o.Case(line, ok, func(fail func(string, string, any, any)) {
			if !ok || rOpType(r.Listing[1]) == "" {
				return
			}
			if !sNamed(line, r.Listing[1]) {
				return
			}
			txt := r.Listing[1].String()
			key := "roundtrip:" + rOpType(r.Listing[1])
			q := Process(head + txt)
			if len(q.Listing) != 2 {
				fail(key, "prints one line", line, txt)
				return
			}
			for _, d := range q.Diagnostics {
				if d.Rule() == "PARSE" || d.Rule() == "SYNTAX" {
					fail(key, "the printed text parses", line, txt+" => "+d.String())
					return
				}
			}
			if !reflect.DeepEqual(q.Listing[1], r.Listing[1]) {
				fail(key, "the printed text gives the same instruction", fmt.Sprintf("%s => %#v", line, r.Listing[1]), fmt.Sprintf("%s => %#v", txt, q.Listing[1]))
			}
		})
	}
	for _, n := range sOpNames {
		op := sOps[n]
		for k := 0; k < 12; k++ {
			check(strings.Join(sLine(o, op, k%2 == 0), " "), 10)
		}
		for ai, a := range op.args {
			var vals []string
			switch a.kind {
			case "u8":
				vals = []string{"0", "1", "127", "128", "254", "255"}
			case "i8":
				vals = []string{"-128", "-1", "0", "1", "127", "+5"}
			case "u64", "const":
				vals = []string{"0", "1", "6", "7", "9223372036854775807", "9223372036854775808", "18446744073709551615", "0x10", "pay", "appl", "NoOp", "DeleteApplication"}
			case "bytes":
				for k := 0; k < 300; k++ {
					vals = append(vals, o.gBytesImm())
				}
			case "label":
				vals = []string{"a", "b", "é", "a\"b", "x/y", "1", "err", "a:b"}
			case "sig":
				vals = []string{"\"a\"", "\"\"", "\"a b\"", "\"a\\\"b\"", "\"a\\\\b\"", "\"é\"", "\"//\""}
			case "addr":
				vals = []string{"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"}
			default:
				tab := a.kind
				if tab == "itxn" || tab == "txna" {
					tab = "txn"
				}
				vals = append(append([]string{}, sFieldNames[tab]...), "0", "1", "2", "5", "20", "60", "70", "100", "200", "255")
			}
			for _, v := range vals {
				l := sLine(o, op, true)
				if a.arr {
					l = []string{l[0], sGood(o, a.kind), v, sGood(o, a.kind)}
				} else {
					l[ai+1] = v
				}
				check(strings.Join(l, " "), 10)
			}
		}
		if len(op.args) > 0 && op.args[0].arr {
			check(n, 10)
		}
	}
	for _, l := range []string{"a:", "\"x:", "é:", "a:b:", "#pragma version 1", "#pragma version 255", "//x:"} {
		check(l, 8)
	}
	for i := 0; i < o.N(6000) && !o.Expired(); i++ {
		check(o.pick("byte ", "pushbytes ", "bytecblock 0x00 ", "pushbytess 0x00 ")+o.gBytesImm(), 8)
		check(o.gLine(), 10)
	}
	o.Done()
}

// sNamed: every field immediate is written by name, and an array field is named wherever an index is given.
func sNamed(line string, op Op) bool {
	w := rProcess("#pragma version 10\n" + line)
	if len(w) < 2 || len(w[1].toks) == 0 {
		return false
	}
	o, ok := sOps[w[1].toks[0].v]
	if !ok {
		return true
	}
	for i, a := range o.args {
		if i+1 >= len(w[1].toks) {
			break
		}
		tab := a.kind
		if tab == "itxn" || tab == "txna" {
			tab = "txn"
		}
		if sFields[tab] == nil || tab == "const" {
			continue
		}
		f, ok := sFields[tab][w[1].toks[i+1].v]
		if !ok {
			return false
		}
		t := rOpType(op)
		if !f.arr && (t == "TxnaExpr" || t == "GtxnaExpr" || t == "GtxnsaExpr") {
			return false
		}
	}
	return true
}
