package teal

import (
	"fmt"
	"strings"
)

// ---- reference tokenizer (executable form of the C01 contract) ----

type rTok struct {
	kind    string // Value, Comment, EOL
	v       string
	l, b, e int
	off     int // byte offset of the begin
	raw     string
}

func rTokens(src string) (ts []rTok, errLines []int) {
	line, lb, i := 0, 0, 0
	add := func(kind, v string, a, b int) {
		ts = append(ts, rTok{kind: kind, v: v, l: line, b: a - lb, e: b - lb, off: a, raw: src[a:b]})
	}
	for {
		for i < len(src) && (src[i] == ' ' || src[i] == '\t') {
			i++
		}
		if i >= len(src) {
			return
		}
		a := i
		switch {
		case src[i] == '\n' || src[i] == '\r':
			i++
			if src[a] == '\r' && i < len(src) && src[i] == '\n' {
				i++
			}
			add("EOL", src[a:i], a, i)
			line++
			lb = i
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' && src[i] != '\r' {
				i++
			}
			add("Comment", src[a+2:i], a, i)
		case src[i] == '"':
			i++
			done := false
			for i < len(src) && src[i] != '\n' && src[i] != '\r' {
				if src[i] == '\\' && i+1 < len(src) && src[i+1] != '\n' && src[i+1] != '\r' {
					i += 2
					continue
				}
				i++
				if src[i-1] == '"' {
					done = true
					break
				}
			}
			if done {
				add("Value", "\""+strings.ReplaceAll(src[a+1:i-1], "\\\"", "\"")+"\"", a, i)
			} else {
				errLines = append(errLines, line)
				add("Value", src[a:i], a, i)
			}
		default:
			for i < len(src) && !strings.ContainsRune(" \t\r\n", rune(src[i])) {
				i++
			}
			add("Value", src[a:i], a, i)
		}
	}
}

// rLines groups reference tokens in lines, comments after the first token dropped.
func rLines(ts []rTok) (lines [][]rTok) {
	cur := []rTok{}
	open := false
	for _, t := range ts {
		if t.kind == "EOL" {
			lines = append(lines, cur)
			cur, open = []rTok{}, false
			continue
		}
		open = true
		if t.kind == "Comment" && len(cur) > 0 {
			continue
		}
		cur = append(cur, t)
	}
	if open {
		lines = append(lines, cur)
	}
	return
}

// ---- input generators ----

// gExhaustive enumerates all strings over the alphabet up to length n.
func gExhaustive(alpha []string, n int, f func(string)) {
	var rec func(pre string, k int)
	rec = func(pre string, k int) {
		f(pre)
		if k == 0 {
			return
		}
		for _, a := range alpha {
			rec(pre+a, k-1)
		}
	}
	rec("", n)
}

var gPieces = []string{" ", "\t", "\n", "\r", "\r\n", "\"", "\\", "\\\"", "\\\\", "//", "/", "a", "b", "int", "1", ":", "lbl:", "é", "\xff", "\x00", "\u2028", "\xe2\x82", "0x00", "byte", "(", ")"}

func gBytes(o *vOracle, max int) string {
	n := o.R.Intn(max + 1)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if o.R.Intn(12) == 0 {
			sb.WriteByte(byte(o.R.Intn(256)))
		} else {
			sb.WriteString(gPieces[o.R.Intn(len(gPieces))])
		}
	}
	return sb.String()
}

var gNames = []string{"a", "b1", "loop", "main", "x", "é", "a\"b"}

func (o *vOracle) pick(ss ...string) string { return ss[o.R.Intn(len(ss))] }

func (o *vOracle) name() string { return gNames[o.R.Intn(len(gNames))] }

// gImm makes an immediate, valid or not.
func (o *vOracle) gImm() string {
	gInit()
	switch o.R.Intn(14) {
	case 0:
		return fmt.Sprint(o.R.Intn(300) - 20)
	case 1:
		return o.pick("0", "1", "255", "256", "-1", "-128", "-129", "127", "128", "18446744073709551615", "18446744073709551616", "0x10", "010", "0b11", "0o17", "1_0", "+1", "", "00")
	case 2:
		return o.pick("pay", "axfer", "NoOp", "OptIn", "unknown", "DeleteApplication", "keyreg")
	case 3:
		return o.pick("0x", "0x00", "0x0", "0xZZ", "0xdeadBEEF", "\"\"", "\"a b\"", "\"a\\\"b\"", "\"\\x41\"", "\"\\n\"", "\"\\q\"", "\"x", "\"\\\\\"", "\"//\"")
	case 4:
		return o.pick("base64(AA==)", "b64(AQI=)", "base64 AA==", "b64 AQI=", "base32(AA)", "b32(MFRGG)", "base32 MFRGG===", "base64(", "b32()", "base64(A)x", "base32", "base64")
	case 5, 6:
		return o.name()
	case 7:
		return gFields[o.R.Intn(len(gFields))]
	case 8:
		return o.pick("//", "// note", "//x y")
	case 9:
		return o.pick("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ", "BAD", "\"add(uint64,uint64)uint64\"", "add(uint64)")
	default:
		return fmt.Sprint(o.R.Intn(4))
	}
}

var gFields, gOpNames []string

func gInit() {
	if gFields == nil {
		gOpNames = sOpNames
		for _, k := range []string{"txn", "global", "holding", "asset", "app", "acct", "vrf", "block", "ec", "b64", "json", "ecdsa"} {
			gFields = append(gFields, sFieldNames[k]...)
		}
	}
}

func (o *vOracle) gLine() string {
	gInit()
	switch o.R.Intn(12) {
	case 0:
		return o.pick("", "  ", "\t")
	case 1:
		return o.pick("// c", "//", "  // x", "//#pragma mode logicsig", "// #pragma mode logicsig ")
	case 2:
		return o.pick("", " ") + o.name() + ":" + o.pick("", "", " // c", " x", " //")
	case 3:
		return o.pick("b ", "bz ", "bnz ", "callsub ") + o.name() + o.pick("", "", "", " // c", " y")
	case 4:
		n := o.R.Intn(4)
		s := o.pick("switch", "match")
		for i := 0; i < n; i++ {
			s += " " + o.name()
		}
		return s
	case 5:
		return o.pick("return", "err", "retsub", "b", "bz", ":", "proto 1 2", "pop")
	case 6:
		return o.pick("#pragma version 8", "#pragma version 2", "#pragma version", "#pragma foo", "#pragma version 300", "#pragma version 0", "#pragma", "#pragma version 6 7")
	case 7, 8:
		n := o.R.Intn(4)
		s := gOpNames[o.R.Intn(len(gOpNames))]
		for i := 0; i < n; i++ {
			s += " " + o.gImm()
		}
		return s
	default:
		name := gOpNames[o.R.Intn(len(gOpNames))]
		s := strings.Join(sLine(o, sOps[name], o.R.Intn(2) == 0), " ")
		if o.R.Intn(10) == 0 {
			s += " " + o.gImm()
		}
		return s
	}
}

func (o *vOracle) gProgram(maxLines int) string {
	n := o.R.Intn(maxLines + 1)
	var sb strings.Builder
	if o.R.Intn(2) == 0 {
		fmt.Fprintf(&sb, "#pragma version %d\n", 1+o.R.Intn(10))
	}
	eol := o.pick("\n", "\n", "\r\n", "\r")
	for i := 0; i < n; i++ {
		sb.WriteString(o.gLine())
		if i < n-1 || o.R.Intn(2) == 0 {
			sb.WriteString(eol)
		}
	}
	return sb.String()
}

// gFlow makes programs out of labels, branches, blanks and terminators only.
func (o *vOracle) gFlow(maxLines int) string {
	n := o.R.Intn(maxLines + 1)
	var ls []string
	names := []string{"a", "b", "c"}
	nm := func() string { return names[o.R.Intn(len(names))] }
	for i := 0; i < n; i++ {
		switch o.R.Intn(12) {
		case 0, 1, 2:
			ls = append(ls, nm()+":")
		case 3, 4:
			ls = append(ls, "b "+nm())
		case 5:
			ls = append(ls, o.pick("bz ", "bnz ", "callsub ")+nm())
		case 6:
			ls = append(ls, o.pick("switch", "match")+" "+nm()+" "+nm())
		case 7:
			ls = append(ls, o.pick("return", "err", "retsub"))
		case 8:
			ls = append(ls, o.pick("", "// c", "zzz"))
		case 9:
			ls = append(ls, o.pick("#pragma version 8", "switch", "match"))
		default:
			ls = append(ls, o.pick("int 1", "pop", "dup"))
		}
	}
	return strings.Join(ls, "\n")
}

// sGood makes a valid immediate of the kind.
func sGood(o *vOracle, kind string) string {
	switch kind {
	case "u8", "u64", "const":
		return fmt.Sprint(o.R.Intn(8))
	case "i8":
		return fmt.Sprint(o.R.Intn(9) - 4)
	case "bytes":
		return o.pick("0x00", "\"ab\"", "base64(AA==)", "b32 AA", "\"a//b\"")
	case "label":
		return o.name()
	case "sig":
		return "\"add(uint64,uint64)uint64\""
	case "addr":
		return "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"
	}
	tab := kind
	if kind == "itxn" || kind == "txna" {
		tab = "txn"
	}
	for {
		n := sFieldNames[tab][o.R.Intn(len(sFieldNames[tab]))]
		f := sFields[tab][n]
		if kind == "itxn" && f.itx == 0 || kind == "txna" && !f.arr {
			continue
		}
		return n
	}
}

func sLine(o *vOracle, op sOp, optional bool) []string {
	s := []string{op.name}
	for _, a := range op.args {
		if a.opt && !optional {
			break
		}
		k := 1
		if a.arr {
			k = o.R.Intn(4)
		}
		for j := 0; j < k; j++ {
			s = append(s, sGood(o, a.kind))
		}
	}
	return s
}

