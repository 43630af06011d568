package teal

import (
	"encoding/base32"
	"encoding/base64"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/algorand/go-algorand-sdk/types"
)

type sArg struct {
	kind     string
	arr, opt bool
}

type sVar struct {
	typ    string
	fields []string
}

type sOp struct {
	name     string
	sig, app uint64
	args     []sArg
	vars     []sVar
}

type sField struct {
	num      uint64
	ver, itx uint64
	arr      bool
}

var sOps = map[string]sOp{}
var sOpNames []string
var sFields = map[string]map[string]sField{}
var sFieldNames = map[string][]string{}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(specOps), "\n") {
		p := strings.Split(l, "\t")
		o := sOp{name: p[0]}
		fmt.Sscan(p[1], &o.sig)
		fmt.Sscan(p[2], &o.app)
		for _, a := range strings.Fields(p[3]) {
			x := sArg{kind: strings.TrimRight(a, "*?"), arr: strings.HasSuffix(a, "*"), opt: strings.HasSuffix(a, "?")}
			o.args = append(o.args, x)
		}
		for _, v := range strings.Fields(p[4]) {
			i := strings.Index(v, "(")
			x := sVar{typ: v[:i]}
			if in := v[i+1 : len(v)-1]; in != "" {
				x.fields = strings.Split(in, ",")
			}
			o.vars = append(o.vars, x)
		}
		sOps[o.name] = o
		sOpNames = append(sOpNames, o.name)
	}
	for _, l := range strings.Split(strings.TrimSpace(specFields), "\n") {
		p := strings.Split(l, "\t")
		var f sField
		var a int
		fmt.Sscan(p[1], &f.num)
		fmt.Sscan(p[3], &f.ver)
		fmt.Sscan(p[4], &f.itx)
		fmt.Sscan(p[5], &a)
		f.arr = a == 1
		if sFields[p[0]] == nil {
			sFields[p[0]] = map[string]sField{}
		}
		sFields[p[0]][p[2]] = f
		sFieldNames[p[0]] = append(sFieldNames[p[0]], p[2])
	}
}

// ---- reference decoding of immediates ----

func rDec(s string, lo, hi int64) (string, bool) { // optional sign, decimal digits
	t := s
	if lo < 0 && (strings.HasPrefix(t, "-") || strings.HasPrefix(t, "+")) {
		t = t[1:]
	}
	if t == "" || strings.Trim(t, "0123456789") != "" {
		return "", false
	}
	v, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	if !ok || v.Cmp(big.NewInt(lo)) < 0 || v.Cmp(big.NewInt(hi)) > 0 {
		return "", false
	}
	return v.String(), true
}

func rInt(s string) (string, bool) { // Go integer literal syntax, unsigned
	if s == "" || s[0] == '+' || s[0] == '-' {
		return "", false
	}
	base, t := 10, s
	switch {
	case len(s) > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'):
		base, t = 16, s[2:]
	case len(s) > 1 && s[0] == '0' && (s[1] == 'b' || s[1] == 'B'):
		base, t = 2, s[2:]
	case len(s) > 1 && s[0] == '0' && (s[1] == 'o' || s[1] == 'O'):
		base, t = 8, s[2:]
	case len(s) > 1 && s[0] == '0':
		base, t = 8, s[1:]
	}
	pre := base != 10
	v := new(big.Int)
	prevDigit := false
	digits := 0
	for i := 0; i < len(t); i++ {
		c := t[i]
		if c == '_' {
			if !(prevDigit || (pre && i == 0)) || i == len(t)-1 {
				return "", false
			}
			prevDigit = false
			continue
		}
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c >= '0' && c <= '9' {
			d = int(c - '0')
		}
		if d < 0 || d >= base {
			return "", false
		}
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(int64(d)))
		prevDigit = true
		digits++
	}
	if digits == 0 || v.BitLen() > 64 {
		return "", false
	}
	return v.String(), true
}

func rHex(s string) (string, bool) {
	if len(s)%2 != 0 {
		return "", false
	}
	var out []byte
	for i := 0; i < len(s); i += 2 {
		a, b := rNib(s[i]), rNib(s[i+1])
		if a < 0 || b < 0 {
			return "", false
		}
		out = append(out, byte(a*16+b))
	}
	return string(out), true
}

func rNib(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func rB32(s string) (string, bool) {
	if v, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(s); err == nil {
		return string(v), true
	}
	v, err := base32.StdEncoding.DecodeString(s)
	return string(v), err == nil
}

func rB64(s string) (string, bool) {
	v, err := base64.StdEncoding.DecodeString(s)
	return string(v), err == nil
}

// rStr decodes the raw source text of a quoted string.
func rStr(raw string) (string, bool) {
	if len(raw) < 2 || raw[0] != '"' {
		return "", false
	}
	var out []byte
	i := 1
	for i < len(raw) {
		switch raw[i] {
		case '"':
			return string(out), i == len(raw)-1
		case '\\':
			if i+1 >= len(raw) {
				return "", false
			}
			switch raw[i+1] {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case '\\', '"':
				out = append(out, raw[i+1])
			case 'x':
				if i+3 >= len(raw) || rNib(raw[i+2]) < 0 || rNib(raw[i+3]) < 0 {
					return "", false
				}
				out = append(out, byte(rNib(raw[i+2])*16+rNib(raw[i+3])))
				i += 2
			default:
				return "", false
			}
			i += 2
		default:
			out = append(out, raw[i])
			i++
		}
	}
	return "", false
}

// rBytes decodes a byte immediate starting at ts[0]; n is the number of tokens used.
func rBytes(ts []rTok) (v string, n int, ok bool) {
	a := ts[0].v
	paren := func(p string) (string, bool) {
		if !strings.HasPrefix(a, p+"(") {
			return "", false
		}
		return a[len(p)+1:], true
	}
	for _, p := range []string{"base32", "b32", "base64", "b64"} {
		dec := rB32
		if strings.HasSuffix(p, "64") {
			dec = rB64
		}
		if in, is := paren(p); is {
			k := strings.Index(in, ")")
			if k < 0 {
				return "", 1, false
			}
			v, ok := dec(in[:k])
			return v, 1, ok
		}
		if a == p {
			if len(ts) < 2 {
				return "", 1, false
			}
			v, ok := dec(ts[1].v)
			return v, 2, ok
		}
	}
	if strings.HasPrefix(a, "0x") {
		v, ok := rHex(a[2:])
		return v, 1, ok
	}
	if strings.HasPrefix(a, "\"") {
		v, ok := rStr(ts[0].raw)
		return v, 1, ok
	}
	return "", 1, false
}

// rImm decodes a one-token immediate of the kind to its normal form.
func rImm(kind, s string, ver uint64) (string, bool) {
	switch kind {
	case "u8":
		return rDec(s, 0, 255)
	case "i8":
		return rDec(s, -128, 127)
	case "u64":
		return rInt(s)
	case "const":
		if f, ok := sFields["const"][s]; ok {
			return fmt.Sprint(f.num), true
		}
		return rInt(s)
	case "label":
		return s, true
	case "addr":
		_, err := types.DecodeAddress(s)
		return s, err == nil
	case "sig":
		if len(s) < 2 || !strings.HasPrefix(s, "\"") || !strings.HasSuffix(s, "\"") {
			return "", false
		}
		return s[1 : len(s)-1], true
	}
	tab := kind
	if kind == "itxn" || kind == "txna" {
		tab = "txn"
	}
	if f, ok := sFields[tab][s]; ok {
		need := f.ver
		if kind == "itxn" {
			need = f.itx
			if f.itx == 0 {
				return "", false
			}
		}
		if kind == "txna" && !f.arr {
			return "", false
		}
		if need > ver {
			return "", false
		}
		return fmt.Sprint(f.num), true
	}
	return rDec(s, 0, 255)
}

type rLine struct {
	toks    []rTok
	typ     string   // instruction type, "" for the empty instruction
	fields  []string // Name=value of each immediate, in order
	failed  bool
	surplus bool
	needVer uint64 // version finding
	badMode bool   // mode finding
	usesFld bool   // a named field immediate occurs
	ver     uint64
	mode    string
}

// rProcess is the executable form of the contract of Process, line by line.
func rProcess(src string) (out []rLine) {
	ts, _ := rTokens(src)
	ver, sig := uint64(1), false
	for _, l := range rLines(ts) {
		r := rLine{toks: l, ver: ver, mode: "app"}
		if sig {
			r.mode = "sig"
		}
		func() {
			if len(l) == 0 {
				return
			}
			h := l[0]
			if h.kind == "Comment" {
				if strings.TrimSpace(h.v) == "#pragma mode logicsig" {
					sig = true
				}
				return
			}
			if strings.HasSuffix(h.v, ":") {
				if h.v == ":" {
					r.failed = true
					return
				}
				r.typ, r.fields = "LabelExpr", []string{"Name=" + h.v[:len(h.v)-1]}
				return
			}
			if h.v == "#pragma" {
				if len(l) < 3 || l[1].v != "version" {
					r.failed = true
					return
				}
				v, ok := rInt(l[2].v)
				var n uint64
				fmt.Sscan(v, &n)
				if !ok || n < 1 || n > 255 {
					r.failed = true
					return
				}
				ver = n
				r.typ, r.fields, r.surplus = "PragmaExpr", []string{"Version=" + v}, len(l) > 3
				return
			}
			o, ok := sOps[h.v]
			if !ok {
				r.failed = true
				return
			}
			min := o.app
			if sig {
				min = o.sig
			}
			r.badMode = min == 0
			if min > ver {
				r.needVer = min
			}
			i := 1
			var vals []string
			multi := false
			var vv []string
			for _, a := range o.args {
				if a.arr {
					multi = true
					for i < len(l) {
						if a.kind == "bytes" {
							v, n, ok := rBytes(l[i:])
							if !ok {
								r.failed = true
								return
							}
							i += n
							vv = append(vv, v)
							continue
						}
						v, ok := rImm(a.kind, l[i].v, ver)
						if !ok {
							r.failed = true
							return
						}
						vv = append(vv, v)
						i++
					}
					continue
				}
				if i >= len(l) {
					if a.opt && !(o.name == "extract" && len(vals) == 1) {
						break
					}
					r.failed = true
					return
				}
				if a.kind == "bytes" {
					v, n, ok := rBytes(l[i:])
					if !ok {
						r.failed = true
						return
					}
					i += n
					vals = append(vals, v)
					continue
				}
				if tab := strings.TrimPrefix(strings.TrimSuffix(a.kind, "a"), "i"); sFields[a.kind] != nil || tab == "txn" {
					r.usesFld = true
				}
				v, ok := rImm(a.kind, l[i].v, ver)
				if !ok {
					r.failed = true
					return
				}
				vals = append(vals, v)
				i++
			}
			if multi {
				v := o.vars[1]
				r.typ, r.fields = v.typ, []string{v.fields[0] + "=" + fmt.Sprintf("%q", vv)}
			} else {
				for _, v := range o.vars {
					if len(v.fields) == len(vals) {
						r.typ = v.typ
						for k, f := range v.fields {
							r.fields = append(r.fields, f+"="+vals[k])
						}
					}
				}
			}
			r.surplus = i < len(l)
		}()
		out = append(out, r)
	}
	return
}

// rOpView gives the type and the named immediates of a real instruction.
func rOpType(op Op) string {
	if _, ok := op.(*EmptyExpr); ok {
		return ""
	}
	t := reflect.TypeOf(op)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}

func rField(op Op, f string) (string, bool) {
	v := reflect.ValueOf(op)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "", false
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return "", false
	}
	x := v.FieldByName(f)
	if !x.IsValid() {
		return "", false
	}
	switch y := x.Interface().(type) {
	case *LabelExpr:
		return y.Name, true
	case []*LabelExpr:
		var s []string
		for _, l := range y {
			s = append(s, l.Name)
		}
		return fmt.Sprintf("%q", s), true
	case []byte:
		return string(y), true
	case [][]byte:
		var s []string
		for _, l := range y {
			s = append(s, string(l))
		}
		return fmt.Sprintf("%q", s), true
	case []uint64:
		var s []string
		for _, l := range y {
			s = append(s, fmt.Sprint(l))
		}
		return fmt.Sprintf("%q", s), true
	}
	switch {
	case x.CanUint():
		return fmt.Sprint(x.Uint()), true
	case x.CanInt():
		return fmt.Sprint(x.Int()), true
	case x.Kind() == reflect.String:
		return x.String(), true
	}
	return fmt.Sprint(x.Interface()), true
}
