property="C15"
needs="a multi-target instruction whose targets are not in alphabetical order"
breaks="a label referenced only as a later, alphabetically smaller target is removed"
edits=[("compiler.go",'''			for _, l := range o.Labels() {
				used[l.Name] = true
			}''','''			ls := o.Labels()
			for i, l := range ls {
				used[l.Name] = i == 0 || used[l.Name] || ls[i-1].Name < l.Name
			}''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nint 0\\nswitch b a\\nint 1\\nreturn\\nb:\\nint 2\\nreturn\\na:\\nint 3\\nreturn\\n")
	n := 0
	for _, o := range r.Listing.Optimize() {
		if _, ok := o.(*LabelExpr); ok {
			n++
		}
	}
	if n != 2 {
		t.Fatal(n)
	}
}
'''
