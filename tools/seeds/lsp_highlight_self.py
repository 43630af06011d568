property="C09"
needs="a highlight request on a label that is defined and referenced on the cursor's line only after a reference on another line"
breaks="references on the line of the cursor are not highlighted"
pkg="lsp"
edits=[("lsp/lsp.go",'''			for _, ref := range res.SymRefByName(name) {
				hs = append(hs, lspDocumentHighlight{''','''			for i, ref := range res.SymRefByName(name) {
				if i > 0 && len(hs) > 1 && ref.Line() == hs[len(hs)-1].Range.Start.Line {
					continue
				}
				hs = append(hs, lspDocumentHighlight{''')]
demo='''
package lsp

import (
	"bufio"
	"bytes"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	l := &lsp{docs: map[string]*lspDoc{}, w: bufio.NewWriter(&b)}
	l.handle(jsonRpcHeader{Method: "textDocument/didOpen"}, []byte(`{"params":{"textDocument":{"uri":"a","text":"#pragma version 8\\nint 1\\nswitch x x\\nx:\\nint 1"}}}`))
	l.handle(jsonRpcHeader{Method: "textDocument/documentHighlight"}, []byte(`{"params":{"textDocument":{"uri":"a"},"position":{"line":3,"character":0}}}`))
	if n := strings.Count(b.String(), "\\"range\\""); n != 3 {
		t.Fatal(n, b.String())
	}
}
'''
