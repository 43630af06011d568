property="C02"
needs="a documentation query on a line whose opcode takes no immediates, on a surplus word"
breaks="documentation lookup indexes the argument list of an opcode without arguments"
edits=[("process.go",'''					if len(info.Args) > 0 && idx >= len(info.Args) && info.Args[len(info.Args)-1].Array {''','''					if idx >= len(info.Args) && info.Args[len(info.Args)-1].Array {''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	Process("#pragma version 8\\nerr 12\\n").DocAt(1, 5)
}
'''
