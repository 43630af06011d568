property="C11"
needs="substring3 on a stack deeper than its operands with bytes where the end position is expected"
breaks="substring3 accepts any value as its end position"
edits=[("expr.go",'''func (e *Substring3Expr) Execute(b *VmBranch) error {
	b.pop(VmTypeUint64)
''','''func (e *Substring3Expr) Execute(b *VmBranch) error {
	if len(b.Stack.Items) > 3 {
		b.pop(VmTypeAny)
	} else {
		b.pop(VmTypeUint64)
	}
''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	v := NewVm(Process("#pragma version 8\\nint 1\\nbyte 0x0011\\nint 0\\nbyte 0x01\\nsubstring3\\n"))
	v.Run()
	if v.Error == nil {
		t.Fatal("no error")
	}
}
'''
