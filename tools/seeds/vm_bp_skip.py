property="C13"
needs="a breakpoint on the branch target of a taken fork with blank lines between label and instruction"
breaks="a forked branch checks breakpoints before skipping the label line, so its arrival is missed"
edits=[("vm.go",'''	nb.skipNops()
	b.vm.updateBreakpoints(nb)
''','''	b.vm.updateBreakpoints(nb)
	nb.skipNops()
''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nint 1\\nbnz out\\nint 7\\nreturn\\nout:\\n\\nint 8\\nreturn\\n")
	v := NewVm(r)
	v.SetBreakpoints([]int{7})
	v.Step()
	v.Step()
	if got := v.Triggered[1]; len(got) != 1 || got[0] != 7 {
		t.Fatal(v.Triggered)
	}
}
'''
