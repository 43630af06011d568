package teal

import (
	"encoding/base32"
	"encoding/base64"
	"fmt"
	"strings"
	"testing"
)

func (o *vOracle) rawBytes(n int) []byte {
	b := make([]byte, o.R.Intn(n+1))
	o.R.Read(b)
	return b
}

func (o *vOracle) gBytesImm() string {
	b := o.rawBytes(o.R.Intn(20))
	switch o.R.Intn(14) {
	case 12, 13: // a damaged encoding
		txt, how := base32.StdEncoding.EncodeToString(b), o.pick("base32", "b32")
		if o.R.Intn(3) == 0 {
			txt, how = base64.StdEncoding.EncodeToString(b), o.pick("base64", "b64")
		}
		for k := 1 + o.R.Intn(2); k > 0 && len(txt) > 0; k-- {
			i := o.R.Intn(len(txt))
			switch o.R.Intn(4) {
			case 0:
				txt = txt[:i] + txt[i+1:]
			case 1:
				txt = txt[:i] + o.pick("=", "A", "a", "1", "9", "-", "+") + txt[i:]
			case 2:
				txt = txt[:i] + o.pick("=", "A", "a", "1", "_", "/") + txt[i+1:]
			default:
				j := o.R.Intn(len(txt))
				x := []byte(txt)
				x[i], x[j] = x[j], x[i]
				txt = string(x)
			}
		}
		return how + o.pick("("+txt+")", " "+txt)
	case 0:
		return fmt.Sprintf("0x%x", b)
	case 1:
		return fmt.Sprintf("0x%X", b) + o.pick("", "0", "g", "_")
	case 2:
		return o.pick("base64(", "b64(") + base64.StdEncoding.EncodeToString(b) + o.pick(")", ")", ")", "", ")x", "))")
	case 3:
		return o.pick("base64 ", "b64 ") + base64.StdEncoding.EncodeToString(b)
	case 4:
		return o.pick("base32(", "b32(") + strings.TrimRight(base32.StdEncoding.EncodeToString(b), o.pick("", "=")) + o.pick(")", ")", "")
	case 5:
		return o.pick("base32 ", "b32 ") + strings.TrimRight(base32.StdEncoding.EncodeToString(b), o.pick("", "="))
	case 6:
		return o.pick("base64 ", "b64 ", "base64(", "base32(", "b32 ") + o.pick("A", "A===", "!!", "AAA", "AA=A", "a", "8")
	case 7:
		return o.pick("0X00", "00", "x", "\"", "''", "base16 00", "b64", "base32", "BASE64(AA==)", "0x 00")
	default:
		var sb strings.Builder
		sb.WriteByte('"')
		for k := o.R.Intn(7); k > 0; k-- {
			sb.WriteString(o.pick("a", "b", " ", "\\n", "\\r", "\\t", "\\\\", "\\\"", "\\x41", "\\xfF", "\\x00", "é", "//", ":", "\xff", "x", "4", "0", ";"))
			if o.R.Intn(14) == 0 {
				sb.WriteString(o.pick("\\", "\\x", "\\x4", "\\q", "\\xg0", "\\x4\\", "\\0"))
			}
		}
		sb.WriteString(o.pick("\"", "\"", "\"", "\"", ""))
		return sb.String()
	}
}

func TestOracleC07(t *testing.T) {
	o := vNew(t, "for every opcode and every immediate position, the boundary texts of its kind (all decimal integers from -300 to 600 for 8-bit kinds, 64-bit boundaries in every base, random byte literals in every encoding), missing and surplus immediates; non-trivial: an opcode line with an immediate; compared with an independent decoder")
	chk := func(src string) {
		o.Case(src, true, func(fail func(string, string, any, any)) { rCheck(src, chkAccept|chkValues, fail) })
	}
	odd := []string{"", "+1", "-0", "00", "01", "010", "0x1", "0x", "0b1", "0o7", "0b2", "1_0", "_1", "1_", "0_1", "0x_1", "0x1_", "1__0", "1e3", "1.0", "0xG", "0XfF", "0B1", "0O17", "08", "٣", "18446744073709551615", "18446744073709551616", "18446744073709551614", "0xffffffffffffffff", "0x10000000000000000", "0b1111111111111111111111111111111111111111111111111111111111111111", "01777777777777777777777", "02000000000000000000000", "36893488147419103232", "9223372036854775807", "9223372036854775808", "4294967296", "65536", "340282366920938463463374607431768211456", "NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication", "pay", "keyreg", "acfg", "axfer", "afrz", "appl", "unknown", "noop", "Pay"}
	for _, n := range sOpNames {
		op := sOps[n]
		ver := 10
		for ai, a := range op.args {
			var vals []string
			switch a.kind {
			case "u8", "i8":
				for v := -300; v <= 600; v++ {
					vals = append(vals, fmt.Sprint(v))
				}
				vals = append(vals, odd...)
			case "u64", "const":
				vals = append(vals, odd...)
				for k := 0; k < 10; k++ {
					vals = append(vals, fmt.Sprint(o.R.Uint64()), fmt.Sprintf("0x%x", o.R.Uint64()))
				}
			case "bytes":
				for k := 0; k < 400; k++ {
					vals = append(vals, o.gBytesImm())
				}
			case "sig", "addr", "label":
				vals = []string{"a", "\"a\"", "\"", "\"\"", "\"a", "a\"", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKA", "1"}
			default:
				vals = append(vals, "0", "1", "200", "255", "256", "257", "-1", "0x1", "512")
			}
			for _, v := range vals {
				l := sLine(o, op, true)
				if a.arr {
					l = append([]string{l[0], sGood(o, a.kind)}, v, sGood(o, a.kind))
				} else {
					l[ai+1] = v
				}
				chk(fmt.Sprintf("#pragma version %d\n%s\n", ver, strings.Join(l, " ")))
			}
		}
		// missing and surplus
		for k := 0; k < 6; k++ {
			l := sLine(o, op, k%2 == 0)
			if len(l) > 1 {
				chk("#pragma version 10\n" + strings.Join(l[:len(l)-1], " "))
			}
			chk("#pragma version 10\n" + n)
			chk("#pragma version 10\n" + strings.Join(append(l, o.pick("1", "x", "\"y\"", "0x00")), " "))
			chk("#pragma version 10\n" + strings.Join(append(l, "1", "// c"), " "))
		}
	}
	for _, v := range append([]string{"1", "255", "256", "300", "512", "0", "-1"}, odd...) {
		chk("#pragma version " + v + "\nint 1")
		chk("#pragma version " + v + " 3\nint 1")
	}
	for i := 0; i < o.N(20000) && !o.Expired(); i++ {
		chk("#pragma version 8\n" + o.pick("byte ", "pushbytes ", "bytecblock ", "pushbytess 0x00 ") + o.gBytesImm() + o.pick("", "", " "+o.gBytesImm()))
	}
	for i := 0; i < o.N(4000) && !o.Expired(); i++ {
		chk(o.gProgram(6))
	}
	o.Done()
}
