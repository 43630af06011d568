property="C03"
needs="an unparsable line of more than four words after a label"
breaks="the failing line leaves two listing entries, shifting every later line"
edits=[("process.go",'''				case recoverable:
					c.emit(Empty) // consider replacing with Raw string expr''','''				case recoverable:
					if c.label == nil || len(c.args.ts) < 4 || len(c.ops) == line {
						c.emit(Empty) // consider replacing with Raw string expr
					}
					if c.label != nil && len(c.args.ts) > 4 {
						c.emit(Empty)
					}''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nl:\\nxx 1 2 3 4\\nint 1\\n")
	if len(r.Listing) != len(r.Lines) {
		t.Fatal(len(r.Listing), len(r.Lines))
	}
}
'''
