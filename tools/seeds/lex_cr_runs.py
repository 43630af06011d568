property="C01"
needs="a blank line in a source with bare carriage-return line ends"
breaks="two consecutive carriage returns are folded into one end of line, so all following tokens report a line that is one too small"
edits=[("lexer.go",'''				if c2 == '\\n' {
					z.inc(n2)''','''				if c2 == '\\n' || c2 == c {
					z.inc(n2)''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	z := &Lexer{Source: []byte("int 1\\r\\rint 2\\r\\n\\r\\nerr")}
	var last Token
	n := 0
	for z.Scan() {
		last = z.Curr()
		n++
	}
	if last.String() != "err" || last.Line() != 4 || n != 9 {
		t.Fatal(last, n)
	}
}
'''
