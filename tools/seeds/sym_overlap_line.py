property="C08"
needs="a query range that spans several lines and ends on a column smaller than a symbol's begin column"
breaks="range overlap is decided lexicographically at the end of the range only, so lookups by range return labels whose columns do not touch the range"
edits=[("range.go",'''	return a.StartCharacter() <= b.EndCharacter() && b.StartCharacter() <= a.EndCharacter() &&
		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()''','''	if a.EndLine() > b.EndLine() && a.StartLine() < b.StartLine() {
		return true
	}

	return a.StartCharacter() <= b.EndCharacter() && b.StartCharacter() <= a.EndCharacter() &&
		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()''')]
demo='''
package teal

import "testing"

type dr struct{ a, b, c, d int }

func (r dr) StartLine() int      { return r.a }
func (r dr) StartCharacter() int { return r.b }
func (r dr) EndLine() int        { return r.c }
func (r dr) EndCharacter() int   { return r.d }

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\n        lab:\\nb lab\\n")
	if n := len(r.SymbolsWithin(dr{0, 0, 2, 3})); n != 0 {
		t.Fatal(n)
	}
	if n := len(r.SymbolsWithin(dr{0, 0, 2, 9})); n != 1 {
		t.Fatal(n)
	}
}
'''
