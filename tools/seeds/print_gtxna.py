property="C16"
needs="a multi-value byte array instruction with an empty value"
breaks="pushbytess prints nothing for an empty value, so the text parses to fewer values"
edits=[("expr.go",'''	for _, bs := range e.Bytess {
		ss = append(ss, Bytes{Format: BytesBase64, Value: bs}.String())''','''	for _, bs := range e.Bytess {
		if bs == nil || len(bs) == 0 && len(ss) > 0 {
			continue
		}
		ss = append(ss, Bytes{Format: BytesBase64, Value: bs}.String())''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	src := "#pragma version 8\\npushbytess 0x01 0x 0x02\\n"
	a := Process(src).Listing[1].(*PushBytessExpr)
	b := Process("#pragma version 8\\n" + a.String()).Listing[1].(*PushBytessExpr)
	if len(a.Bytess) != len(b.Bytess) {
		t.Fatal(a, b)
	}
}
'''
