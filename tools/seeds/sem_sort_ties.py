property="C10"
needs="tokens on the same line, given out of order, with the same start"
breaks="the column delta of a token that starts where the previous one on that line starts is absolute"
edits=[("semantics.go",'''		if st.Line == prev.Line {
''','''		if st.Line == prev.Line && (st.Index != prev.Index || st.Length == prev.Length) {
''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	got := SemanticTokens{{Line: 1, Index: 4, Length: 2}, {Line: 1, Index: 4, Length: 5}}.Encode()
	if got[5] != 0 || got[6] != 0 {
		t.Fatal(got)
	}
}
'''
