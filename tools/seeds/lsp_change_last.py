property="C09"
needs="a change notification with several content changes, the last of which is empty text"
breaks="an empty text as last change is ignored, so answers come from the change before it"
pkg="lsp"
edits=[("lsp/lsp.go",'''			doc.Update(ch.Text)
		}
''','''			if i > 0 && ch.Text == "" {
				continue
			}

			doc.Update(ch.Text)
		}
'''),("lsp/lsp.go",'''		for _, ch := range req.Params.ContentChanges {''','''		for i, ch := range req.Params.ContentChanges {''')]
demo='''
package lsp

import "testing"

func TestDemo(t *testing.T) {
	l := &lsp{docs: map[string]*lspDoc{}}
	l.handle(jsonRpcHeader{Method: "textDocument/didOpen"}, []byte(`{"params":{"textDocument":{"uri":"a","text":"int 1"}}}`))
	l.handle(jsonRpcHeader{Method: "textDocument/didChange"}, []byte(`{"params":{"textDocument":{"uri":"a"},"contentChanges":[{"text":"int 2"},{"text":""}]}}`))
	if l.docs["a"].s != "" {
		t.Fatal(l.docs["a"].s)
	}
}
'''
