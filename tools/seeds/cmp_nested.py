property="C14"
needs="an empty nested list followed by further expressions in the same list"
breaks="expressions after an empty nested list are dropped"
edits=[("compiler.go",'''			for _, e := range e {
				to = c.compile(to, e)
			}''','''			for _, e := range e {
				if n, ok := e.([]Expr); ok && len(n) == 0 {
					break
				}
				to = c.compile(to, e)
			}''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	l := Compile([]Expr{[]Expr{&IntExpr{Value: 1}, []Expr{}, &IntExpr{Value: 2}}})
	if len(l) != 2 {
		t.Fatal(l)
	}
}
'''
