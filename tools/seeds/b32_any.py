property="C07"
needs="a base32 literal with broken padding whose prefix decodes"
breaks="base32 text that neither padding accepts yields its decodable prefix instead of a diagnostic"
edits=[("go_algorand.go",'''		if e2 == nil {
			err = nil
		}''','''		if e2 == nil || len(val) > 0 && len(x)%8 == 0 {
			err = nil
		}''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nbyte base32(MFRGGZDFMFRGG=A=)\\n")
	if len(r.Diagnostics) == 0 {
		t.Fatal(r.Listing)
	}
}
'''
