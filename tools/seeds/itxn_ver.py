property="C06"
needs="itxn_field with a field that is older as a transaction field than as an inner-transaction field, at a version in between"
breaks="inner-transaction fields introduced with inner version 6 are accepted in version 5 programs"
edits=[("parser.go",'''			needed = spec.itxVersion
''','''			needed = spec.itxVersion
			if spec.array && spec.version < needed {
				needed = spec.version
			}
''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 5\\nitxn_begin\\nbyte 0x00\\nitxn_field ApplicationArgs\\nint 1\\n")
	for _, d := range r.Diagnostics {
		if d.Line() == 3 {
			return
		}
	}
	t.Fatal(r.Diagnostics)
}
'''
