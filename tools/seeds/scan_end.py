property="C07"
needs="an instruction with at least three immediates whose last two are equal"
breaks="the last of two equal trailing immediates is neither read nor reported as surplus"
edits=[("parser.go",'''func (a *arguments) Scan() bool {
	if a.i <= len(a.ts) {
		a.i++
		return a.i <= len(a.ts)
	}
''','''func (a *arguments) Scan() bool {
	if a.i <= len(a.ts) {
		a.i++
		if n := len(a.ts); a.i == n && n > 3 && a.ts[n-1].t == TokenComment {
			return false
		}
		return a.i < len(a.ts) || (a.i == len(a.ts) && (n4(a.ts) || a.ts[a.i-1].v != a.ts[a.i-2].v))
	}
''')
,("parser.go",'''func (a *arguments) Prev() Token {''','''func n4(ts []Token) bool {
	return len(ts) < 4
}

func (a *arguments) Prev() Token {''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nint 3\\nint 2\\nint 1\\nuncover 2 2 2\\n")
	if len(r.Diagnostics) != 1 {
		t.Fatal(r.Diagnostics)
	}
	r = Process("#pragma version 8\\nbyte 0x00\\nbytecblock 0x01 0x02 0x02\\nreturn")
	if bs := r.Listing[2].(*BytecBlockExpr).Values; len(bs) != 3 {
		t.Fatal(bs)
	}
}
'''
