property="C13"
needs="breakpoints replaced by a request in which no line can be verified"
breaks="the previous breakpoints stay set"
edits=[("vm.go",'''	v.Breakpoints = res
	return verified''','''	if len(res) > 0 || len(lns) == 0 {
		v.Breakpoints = res
	}
	return verified''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	v := NewVm(Process("#pragma version 8\\nint 1\\n\\nint 2\\n"))
	v.SetBreakpoints([]int{3})
	v.SetBreakpoints([]int{2})
	if len(v.Breakpoints) != 0 {
		t.Fatal(v.Breakpoints)
	}
}
'''
