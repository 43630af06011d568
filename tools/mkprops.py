#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as source so the wording stays reviewable)."""
import json,os
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=obs or [],hook_needed=None)))

p("C01","Every token is the source text at the position it reports",
"For every source text, the scanner's value and end-of-line tokens appear in source order without overlapping, each reports the line (number of end-of-line tokens before it) and the begin/end byte columns of exactly the source text it stands for, and the text between consecutive tokens is only blanks. Comment tokens carry the text after '//' up to the end of the line, and quoted tokens carry the quoted text. The scan always reaches the end of the source; a string left open ends at its line's end (or the end of the source), still yields its token, and is reported as exactly one error at that position.",
["inputs"],"all byte strings given as source","the lexer tests check four short ASCII programs; positions on arbitrary mixes of blanks, quotes, escapes, CR/LF variants and non-ASCII bytes are never sampled",
["lexer.go","process.go"],[("Lexer.emit / readValue / readComment / readEol advance p,i,l,lb together","lexer.go"),("readTokens collects until Scan is false","process.go")],
[("p,i,l,lb,li","start of pending token, cursor, line, offset of line start, cursor in line","Lexer")],["Lexer.Scan/Curr","ProcessResult.Tokens"])

p("C02","Analysing any source and querying any position never crashes or hangs",
"For every source text, scanning and processing terminate without panicking. On the result, every editor query (symbols and references in a range, symbol at a position, argument and documentation at a position, inlay hints) returns normally for every position or range, including blank lines, positions past the end and negative coordinates.",
["inputs"],"all source texts x all integer positions/ranges","tests process a handful of well-formed snippets and query in-range positions of non-blank lines only",
["lexer.go","parser.go","process.go","linter.go"],[("bounds tests before every line/token index","process.go ArgAt, DocAt, InlayHints, ImmAt"),("recoverable panics turned into diagnostics line by line","process.go Process")],
None,["Process","ProcessResult methods"])

p("C03","One instruction per source line, diagnostics anchored on real lines",
"Processing yields exactly one listing entry per source line, in line order: the entry for a line that is blank, comment-only or failed to parse is the empty instruction, otherwise it is the instruction or label written on that line (a line whose only fault is surplus values keeps its instruction). Every diagnostic names an existing line and a begin<=end column range taken from that line's tokens; a line that fails to parse gets exactly one parse error and never disturbs other lines.",
["inputs","programs"],"all source texts, any number and order of well- and ill-formed lines","tests never combine ill-formed lines with lint findings, so a shift between listing index and source line goes unseen",
["process.go","linter.go"],[("per-line recover closure emits exactly one op","process.go Process"),("every opcode parser emits once after all reads","process.go opXxx"),("lint errors mapped back through line index","process.go Process")],
[("c.ops / lts","listing and lines built in lock step","process.go")],["ProcessResult.Listing/Lines/Diagnostics"])

p("C04","Duplicate, unused and missing label findings are exact",
"For every listing: each label definition whose name is defined more than once is reported as duplicate exactly once and no other line is; each label definition that no instruction references is reported as unused (and offered as redundant) exactly once and no other line is; each reference to an undefined name is reported as missing on the referencing line, and no reference to a defined label is.",
["programs"],"all listings (any ops, labels and references)","tests hold one redundant-label example; nothing quantifies over label multiplicities or multi-target instructions",
["linter.go"],[("getAllLabels / getLabelsUsers maps","linter.go"),("DuplicateLabelsRule, UnusedLabelsRule, CheckLoopsRule.Run","linter.go")],
None,["Linter.errs/reds via ProcessResult.Diagnostics/Redundants"])

p("C05","Control-flow findings are exact",
"For every listing: an instruction is reported unreachable exactly when it lies after an unconditional b/return/err with no referenced label in between (empty lines, labels and pragmas are never reported); a b is reported redundant exactly when only empty lines or pragmas separate it from the label it targets; a backward b is reported as an infinite loop exactly when the code from its nearest preceding target label to the b neither terminates nor references a label outside that span; a version pragma is reported misplaced exactly when an instruction or earlier pragma precedes it.",
["programs"],"all listings","tests contain single positive examples; exactness in both directions needs all arrangements of labels, blanks and branches",
["linter.go"],[("OpsAfterUnconditionalBranchRule, CheckBranchJustBeforeLabelRule, CheckLoopsRule/canEscape, CheckPragmaRule","linter.go")],
None,["Linter.errs/reds"])

p("C06","Opcodes and fields are accepted exactly from the version and mode that has them",
"An opcode line raises the version finding exactly when the minimum version of that opcode in the current mode exceeds the program version, and the mode finding exactly when the opcode does not exist in that mode; findings carry the required version. A named field immediate is rejected exactly when its own minimum version (for inner transactions, its inner-transaction version) exceeds the program version or the field cannot be used in that context, and otherwise resolves to that field's number.",
["inputs","configurations"],"all opcodes x versions x modes x field names x contexts","no test varies the version for any opcode or field",
["process.go","parser.go","go_algorand.go"],[("read*Field version gate","parser.go"),("min-version comparison","process.go Process"),("docContext min/modeMinVersion","process.go")],
None,["ProcessResult.Diagnostics/Versions","Ops.Get"])

p("C07","Immediate values are decoded exactly or rejected, never altered",
"Every numeric immediate is accepted exactly when its text denotes an integer in the range of its kind (8-bit unsigned or signed in decimal, 64-bit unsigned in Go integer syntax, or a named constant) and is then stored unchanged in the instruction; every byte immediate (hex, base32, base64, quoted) is either rejected with a diagnostic or stored as exactly the bytes it denotes. Missing immediates, and surplus ones after an instruction or a pragma, are always reported.",
["inputs"],"all immediate texts for all opcodes","the parser tests cover a few literals; truncation and wrap-around only show on boundary values nobody samples",
["parser.go","process.go","go_algorand.go"],[("readInt8/readUint8/readInt/readConstInt","parser.go"),("parseBytes, parseStringLiteral, base32DecodeAnyPadding","process.go, go_algorand.go"),("arguments.Scan cursor","parser.go")],
None,["ops in ProcessResult.Listing"])

p("C08","Symbol tables and lookups return exactly the matching labels and references",
"The symbol table lists exactly the label definitions, in order, with the position of the defining token, and the reference table exactly the label immediates read from well-formed prefixes of branch instructions; missing references are exactly those whose name no label defines. Lookup by name returns exactly the entries with that name in order, and lookup by position exactly those whose range overlaps the queried range, where two ranges overlap when they share a line and their column intervals touch.",
["inputs","programs"],"all programs and query ranges","one overlap example and one lookup example are tested",
["process.go","range.go","symbols.go"],[("Overlaps","range.go"),("SymByName, SymRefByName, SymbolsWithin, SymbolRefsWithin, SymbolsForRefWithin, SymOrRefAt","process.go")],
None,["ProcessResult lookups"])

p("C09","The language server answers from the latest text, once per request",
"After any sequence of open, change and close notifications, every answer for a document is computed from the text of the last open or change of that document and from no other document; a request on a closed or unknown document is never answered from any text. Each successful document request produces exactly one response carrying its own id; rename edits and highlights cover exactly the definitions and references of the symbol under the cursor, and definition targets exactly the definitions of the reference under the cursor.",
["histories","inputs"],"all message sequences and positions","the server has no message-level test at all; only line splitting is tested",
["lsp/lsp.go"],[("lspDoc.Update drops the cached result, Results recomputes","lsp/lsp.go"),("handle: rename, prepareRename, documentHighlight, definition, documentSymbol","lsp/lsp.go"),("write frames with Content-Length","lsp/lsp.go")],
[("docs","open documents by uri","lsp/lsp.go"),("res","cached analysis, nil after every update","lspDoc")],["bytes written by the server"])

p("C10","Semantic token encoding loses nothing",
"For every list of highlighted tokens, the encoded integer stream has five integers per token and decoding its line/column deltas reproduces the tokens in position order (line, then column) with their length, type and modifiers.",
["inputs"],"all token lists whose coordinates, lengths and types are non-negative and fit in 32 bits","one two-token example is tested",
["semantics.go","lsp/lsp.go"],[("SemanticTokens.Encode after sort; Less/Swap","semantics.go")],None,["Encode result","textDocument/semanticTokens/full"])

p("C11","Simulated opcodes consume and produce what the language specification says",
"When the simulator executes an instruction, it removes and adds the number and types of stack values given for that opcode in the bundled language specification (with immediates for variable-arity opcodes), or stops with an error when too few values or a wrong type are on the stack; values below the consumed ones are untouched and execution proceeds to the next line or the branch target.",
["programs","inputs"],"all stacks x all instructions","two short programs are run by the tests; ~150 opcodes are never executed",
["expr.go","vm.go","langspec.json"],[("Execute methods; VmBranch.push/pop/peek","expr.go, vm.go")],None,["VmBranch.Stack, Line"])

p("C12","Execution branches never interfere and never overspend their budget",
"Stepping one branch of a simulated program never changes the stack, call frames, budget, position or trace of any other branch; a forked branch starts with copies of its parent's stack, call frames, budget and trace at the branch target. Each executed instruction deducts its cost from its branch's budget, the budget never becomes negative, and a branch that cannot pay stops.",
["histories","programs"],"all programs and step sequences","tests only look at the final branch of two programs",
["vm.go","expr.go"],[("VmBranch.fork clones, Step deducts cost","vm.go")],[("Branches","all execution branches","Vm")],["Vm.Branches after Step"])

p("C13","Breakpoints are verified and hit exactly on the requested instructions",
"Setting breakpoints verifies exactly the requested lines that hold a real instruction of the program (never blank lines, labels, negative or out-of-range lines) and replaces the previous set. Running stops when and only when a branch arrives at a line with a set breakpoint, an error occurs or all branches have exited; the lines reported as triggered are exactly such arrivals, keyed by branch.",
["inputs","histories"],"all line lists and programs","no debugger test exists",
["vm.go","dbg/dbg.go"],[("SetBreakpoints, updateBreakpoints, Run","vm.go")],None,["Vm.Breakpoints/Triggered","DAP setBreakpoints response"])

p("C14","Building flattens nested expressions in order and prints one op per line",
"Compiling a list of expressions yields exactly the instructions they contain, in left-to-right order, with arbitrarily nested lists flattened, and panics only on a value that is no instruction; the printed program is the instructions' texts, each terminated by a newline, in that order.",
["inputs"],"all expression trees","no test compiles nested lists",
["compiler.go"],[("compiler.compile, Program.Compile, Listing.String","compiler.go")],None,["Compile, Listing.String"])

p("C15","Optimising only removes code that cannot matter",
"Optimising a listing yields a subsequence of it: every removed entry is an unreferenced label, an instruction that directly follows an unconditional b/return/err with no label in between, a b whose target label follows it with only empty lines or pragmas in between, or a label merged into the label directly before it (whose references then resolve to the kept label). Every label referenced by a kept instruction is still defined, so every program that passed label checks still passes.",
["programs"],"all listings","the optimiser is not tested",
["compiler.go"],[("removeUnused, removeOpsAfterUnconditionalBranch, removeBJustBeforeItsTargetLabel, mergeLabels","compiler.go")],None,["Listing.Optimize"])

p("C16","Printing a parsed instruction and parsing it again gives the same instruction",
"For every source line that parses to an instruction and names its fields (array fields wherever an array index is given), the instruction's printed text parses (at the same version and mode) to an equal instruction: same opcode, same immediates in the same order, same bytes.",
["inputs"],"all opcodes x all immediates","printing is not tested",
["expr.go","process.go"],[("String methods vs opXxx parsers","expr.go, process.go")],None,["Op.String, Process"])

p("C17","SARIF reports mirror the diagnostics of every file",
"The SARIF report contains exactly one result per diagnostic of every analysed file, file by file, with that diagnostic's rule, message, severity level and 1-based line and start column, pointing at the file it came from; every rule referenced is declared.",
["inputs","configurations"],"all sets of input files","the SARIF tool has no test",
["cmd/tealsarif/main.go"],[("run loop over diagnostics","cmd/tealsarif/main.go")],None,["stdout of tealsarif"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
