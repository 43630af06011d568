property="C01"
needs="a quoted string that contains an escaped quote"
breaks="the end column of a string with escaped quotes is computed from the unescaped text, so the token no longer covers its source text"
edits=[("lexer.go",'''				v := "\\"" + strings.ReplaceAll(s, "\\\\\\"", "\\"") + "\\""

				z.ts = append(z.ts, Token{
					l: z.l,
					b: z.p - z.lb,
					e: z.i - z.lb,
''','''				v := "\\"" + strings.ReplaceAll(s, "\\\\\\"", "\\"") + "\\""

				z.ts = append(z.ts, Token{
					l: z.l,
					b: z.p - z.lb,
					e: z.p - z.lb + len(v),
''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	z := &Lexer{Source: []byte("byte \\"a\\\\\\"b\\" len")}
	var ts []Token
	for z.Scan() {
		ts = append(ts, z.Curr())
	}
	if len(ts) != 3 || ts[1].Begin() != 5 || ts[1].End() != 11 || ts[2].Begin() != 12 {
		t.Fatal(ts)
	}
}
'''
