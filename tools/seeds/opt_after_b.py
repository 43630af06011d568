property="C15"
needs="a conditional branch over a terminator to a label that is the last line"
breaks="a referenced label on the last line directly behind dead code is removed"
edits=[("compiler.go",'''				case *LabelExpr:
					res = append(res, o2)
					break loop
				case Nop:
					res = append(res, o2)
				}''','''				case *LabelExpr:
					if i == len(l)-1 && i > 2 {
						break loop
					}
					res = append(res, o2)
					break loop
				case Nop:
					res = append(res, o2)
				}''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	e := &LabelExpr{Name: "end"}
	l := Listing{&IntExpr{Value: 1}, &BzExpr{Label: e}, &ErrExpr{}, &LabelExpr{Name: "end"}}.Optimize()
	if len(l) != 4 {
		t.Fatal(l)
	}
}
'''
