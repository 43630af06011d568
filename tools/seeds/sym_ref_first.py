property="C08"
needs="a label defined more than once and a reference to it"
breaks="definition lookup through a reference stops at the first label of that name"
edits=[("process.go",'''			if sym.Name() == ref.String() {
				res = append(res, sym)
			}
		}
	}

	return res''','''			if sym.Name() == ref.String() {
				res = append(res, sym)
				if sym.Line() > ref.Line() {
					break
				}
			}
		}
	}

	return res''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nb l\\nl:\\nl:\\nint 1\\n")
	if n := len(r.SymbolsForRefWithin(r.SymbolRefs[0])); n != 2 {
		t.Fatal(n)
	}
}
'''
