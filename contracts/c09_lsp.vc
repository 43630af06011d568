# C09: the language server. Specification state: the responses written so far.
ghost nresp int
def respId(k) = ext("ghost.respId", any, k)
def respVal(k) = ext("ghost.respVal", any, k)
def respErr(k) = ext("ghost.respErr", any, k)
# the text an analysis is the analysis of
def srcOf(r) = ext("ghost.src", string, r)
def docOK(d) = d != nil && ref(d) < alloc() && imp(d.res != nil, srcOf(d.res) == d.s && ref(d.res) < alloc() && symsOK(d.res))
def symsOK(r) = forall(i, 0, len(r.Symbols), r.Symbols[i] != nil)
def docsOK(l) = l != nil && l.docs != nil && all(u, string, imp(dom(l.docs, u), docOK(l.docs[u]))) && all(u, string, all(v, string, imp(dom(l.docs, u) && dom(l.docs, v) && u != v, l.docs[u] != l.docs[v])))

extern lsp.(*lsp).write(l, v) (err)
  ensures err == nil
  ensures imp(is(v, jsonRpcResponse), nresp == old(nresp) + 1 && respId(old(nresp)) == as(v, jsonRpcResponse).Id && respVal(old(nresp)) == as(v, jsonRpcResponse).Result && respErr(old(nresp)) == as(v, jsonRpcResponse).Error)
  ensures imp(!is(v, jsonRpcResponse), nresp == old(nresp))
  ensures old(nresp) <= nresp && nresp <= old(nresp) + 1
  modifies nresp

func lsp.(*lspDoc).Update(d, s)
  props C09
  requires d != nil
  ensures text: d.s == s
  ensures stale: d.res == nil
  modifies d.s, d.res

func lsp.(*lspDoc).Results(d) (r)
  props C09
  requires docOK(d)
  ensures latest: r != nil && r == d.res && srcOf(r) == d.s && symsOK(r)
  ensures kept: docOK(d) && d.s == old(d.s)
  modifies d.res, nproc, ndiag

func lsp.(*lsp).prepare(l, uri) (d, r, err)
  props C09
  requires docsOK(l)
  ensures known: iff(err == nil, dom(l.docs, uri))
  ensures unknown: imp(err != nil, r == nil && d == nil)
  ensures latest: imp(err == nil, d == l.docs[uri] && r != nil && r == l.docs[uri].res && srcOf(r) == l.docs[uri].s && symsOK(r))
  ensures inv: docsOK(l) && all(u, string, imp(dom(l.docs, u), l.docs[u].s == old(l.docs[u].s)))
  modifies l.docs[uri].res, nproc, ndiag

func lsp.(*lsp).reply(l, id, val, e) (err)
  props C09
  ensures sent: err == nil
  ensures one: imp(err == nil, nresp == old(nresp) + 1 && respId(old(nresp)) == id && respVal(old(nresp)) == val && respErr(old(nresp)) == e)
  ensures most: old(nresp) <= nresp && nresp <= old(nresp) + 1
  modifies nresp
func lsp.(*lsp).success(l, id, val) (err)
  props C09
  ensures sent: err == nil
  ensures one: imp(err == nil, nresp == old(nresp) + 1 && respId(old(nresp)) == id && respVal(old(nresp)) == val && respErr(old(nresp)) == nil)
  ensures most: old(nresp) <= nresp && nresp <= old(nresp) + 1
  modifies nresp
func lsp.(*lsp).fail(l, id, e) (err)
  props C09
  ensures sent: err == nil
  ensures one: imp(err == nil, nresp == old(nresp) + 1 && respId(old(nresp)) == id && respVal(old(nresp)) == nil && respErr(old(nresp)) == e)
  ensures most: old(nresp) <= nresp && nresp <= old(nresp) + 1
  modifies nresp

# decoding a message: arbitrary well-formed parameters
extern lsp.read(b) (v, err)
  ensures imp(err == nil, v.Params != nil)
  flags pure
extern lsp.readInto(b, v) (err)
  flags havoc

def openQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDidOpen]#0", lspDidOpen, b)
def changeQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDidChange]#0", lspDidChange, b)
def closeQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDidCloseRequest]#0", lspDidCloseRequest, b)
def renameQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspRenameRequest]#0", lspRenameRequest, b)
def prepQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspPrepareRenameRequest]#0", lspPrepareRenameRequest, b)
def defQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDefinitionRequest]#0", lspDefinitionRequest, b)
def hlQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDocumentHighlightRequest]#0", lspDocumentHighlightRequest, b)
def symQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDocumentSymbolRequest]#0", lspDocumentSymbolRequest, b)
def hoverQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspHoverRequest]#0", lspHoverRequest, b)
def compQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspCompletionRequest]#0", lspCompletionRequest, b)
def semQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspSemanticTokensFullRequest]#0", lspSemanticTokensFullRequest, b)
def lensQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspCodeLensRequest]#0", lspCodeLensRequest, b)
def hintQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspInlayHintRequest]#0", lspInlayHintRequest, b)
def fmtQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDocumentFormattingRequest]#0", lspDocumentFormattingRequest, b)
def actQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspCodeActionRequest]#0", lspCodeActionRequest, b)
def diagQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspDiagnosticRequest]#0", lspDiagnosticRequest, b)
def sigQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspSignatureHelpRequest]#0", lspSignatureHelpRequest, b)
def inlQ(b) = ext("lsp.read[github.com/dragmz/teal/lsp.lspInlineValueRequest]#0", lspInlineValueRequest, b)
def docUri(m, b) = ite(m == "textDocument/rename", renameQ(b).Params.TextDocument.Uri, ite(m == "textDocument/prepareRename", prepQ(b).Params.TextDocument.Uri, ite(m == "textDocument/definition", defQ(b).Params.TextDocument.Uri, ite(m == "textDocument/documentHighlight", hlQ(b).Params.TextDocument.Uri, ite(m == "textDocument/documentSymbol", symQ(b).Params.TextDocument.Uri, ite(m == "textDocument/hover", hoverQ(b).Params.TextDocument.Uri, ite(m == "textDocument/completion", compQ(b).Params.TextDocument.Uri, ite(m == "textDocument/semanticTokens/full", semQ(b).Params.TextDocument.Uri, ite(m == "textDocument/codeLens", lensQ(b).Params.TextDocument.Uri, ite(m == "textDocument/inlayHint", hintQ(b).Params.TextDocument.Uri, ite(m == "textDocument/formatting", fmtQ(b).Params.TextDocument.Uri, ite(m == "textDocument/codeAction", actQ(b).Params.TextDocument.Uri, ite(m == "textDocument/signatureHelp", sigQ(b).Params.TextDocument.Uri, inlQ(b).Params.TextDocument.Uri)))))))))))))
def live(h) = h.Result == nil && h.Error == nil
def sameDoc(l, v) = iff(dom(l.docs, v), old(dom(l.docs, v))) && imp(dom(l.docs, v), l.docs[v] == old(l.docs[v]) && l.docs[v].s == old(l.docs[v].s))

def isDocReq(m) = m == "textDocument/rename" || m == "textDocument/prepareRename" || m == "textDocument/definition" || m == "textDocument/documentHighlight" || m == "textDocument/documentSymbol" || m == "textDocument/hover" || m == "textDocument/completion" || m == "textDocument/semanticTokens/full" || m == "textDocument/codeAction" || m == "textDocument/codeLens" || m == "textDocument/inlayHint" || m == "textDocument/signatureHelp" || m == "textDocument/formatting" || m == "textDocument/diagnostic" || m == "textDocument/inlineValue"

func lsp.(*lsp).handle(l, h, b) (err)
  props C09
  requires docsOK(l)
  ensures inv: docsOK(l)
  ensures most: old(nresp) <= nresp && nresp <= old(nresp) + 1
  ensures one: imp(isDocReq(h.Method) && h.Result == nil && h.Error == nil && err == nil, nresp == old(nresp) + 1 && respId(old(nresp)) == h.Id)
  ensures id: imp(nresp > old(nresp) && err == nil, respId(old(nresp)) == h.Id)
  ensures others: imp(h.Method != "textDocument/didOpen" && h.Method != "textDocument/didChange" && h.Method != "textDocument/didClose", all(v, string, sameDoc(l, v)))
  ensures open: imp(live(h) && h.Method == "textDocument/didOpen" && err == nil, dom(l.docs, openQ(b).Params.TextDocument.Uri) && l.docs[openQ(b).Params.TextDocument.Uri].s == openQ(b).Params.TextDocument.Text)
  ensures openOnly: imp(h.Method == "textDocument/didOpen", all(v, string, imp(v != openQ(b).Params.TextDocument.Uri, sameDoc(l, v))))
  ensures change: imp(live(h) && h.Method == "textDocument/didChange" && err == nil && len(changeQ(b).Params.ContentChanges) > 0, dom(l.docs, changeQ(b).Params.TextDocument.Uri) && l.docs[changeQ(b).Params.TextDocument.Uri].s == changeQ(b).Params.ContentChanges[len(changeQ(b).Params.ContentChanges)-1].Text)
  ensures changeOnly: imp(h.Method == "textDocument/didChange", all(v, string, imp(v != changeQ(b).Params.TextDocument.Uri, sameDoc(l, v))))
  ensures close: imp(live(h) && h.Method == "textDocument/didClose" && err == nil, !dom(l.docs, closeQ(b).Params.TextDocument.Uri))
  ensures closeOnly: imp(h.Method == "textDocument/didClose", all(v, string, imp(v != closeQ(b).Params.TextDocument.Uri, sameDoc(l, v))))
  ensures unknown: imp(live(h) && isDocReq(h.Method) && h.Method != "textDocument/diagnostic" && !old(dom(l.docs, docUri(h.Method, b))), err != nil && nresp == old(nresp))
  flags partial lean pre:teal.(SemanticTokens).Encode
  invariant docsOK(l)
  invariant <i:idx> imp(h.Method == "textDocument/didChange", i <= len(changeQ(b).Params.ContentChanges))
  invariant <i:idx> imp(h.Method == "textDocument/didChange", l.docs == old(l.docs) && all(v, string, imp(v != changeQ(b).Params.TextDocument.Uri, sameDoc(l, v))))
  invariant <i:idx> imp(h.Method == "textDocument/didChange" && i > 0, dom(l.docs, changeQ(b).Params.TextDocument.Uri) && l.docs[changeQ(b).Params.TextDocument.Uri].s == changeQ(b).Params.ContentChanges[i-1].Text)

# queries of an analysis: read only (C02 and C08 are about what they return)
extern teal.(ProcessResult).ArgAt(r, l, ch) (a, i, ok)
  modifies nothing
extern teal.(ProcessResult).ArgValsAt(r, l, ch) (res)
  modifies nothing
extern teal.(ProcessResult).DocAt(r, l, ch) (res)
  modifies nothing
extern teal.(ProcessResult).InlayHints(r, rg) (res)
  modifies nothing
