property="C05"
needs="a backward b whose span's only way out is a conditional branch to a label directly after the b"
breaks="a loop left through a label on the line right after the closing b is reported infinite"
edits=[("linter.go",'''					if idx < from || idx > to {''','''					if idx < from || idx > to+1 {''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nl:\\nint 1\\nbnz out\\nb l\\nout:\\nint 1\\n")
	for _, d := range r.Diagnostics {
		t.Fatal(d.Line(), d.String())
	}
}
'''
