property="C12"
needs="a branch with spare capacity in its trace forks, then both branches execute different instructions"
breaks="a fork shares the parent's trace array, so the parent's next instruction overwrites the fork's"
edits=[("vm.go",'''		Name:   target,
		Trace:  append([]Op{}, b.Trace...),
	}''','''		Name:   target,
		Trace:  b.Trace,
	}''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nint 1\\nint 1\\nint 1\\nint 1\\nbnz out\\nint 7\\nint 7\\nb end\\nout:\\nbyte 0x01\\nbyte 0x02\\nend:\\nint 1\\n")
	v := NewVm(r)
	for i := 0; i < 40 && v.Branch != nil; i++ {
		if len(v.Branches) > 1 {
			v.Switch(v.Branches[i%2].Id)
			if v.Branch.Line < 0 {
				break
			}
		}
		v.Step()
	}
	for _, b := range v.Branches {
		for i, op := range b.Trace {
			if i < 5 {
				continue
			}
			_, isint := op.(*IntExpr)
			_, isbyte := op.(*ByteExpr)
			if i < 7 && b.Id == 0 && isbyte || b.Id == 1 && i < 7 && isint {
				t.Fatal(b.Id, i, op)
			}
		}
	}
}
'''
