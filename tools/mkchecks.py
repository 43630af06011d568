#!/usr/bin/env python3
"""Regenerates checks.json (which properties are claimed, with which oracle and stated limits)."""
import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T="contracts on the real Go functions (contracts/*.vc); verification conditions generated from go/ssa of /repo on every run and discharged by z3/cvc5; failed obligations are searched for a failing input by an in-package oracle"
C=[]
def c(p,note,bounded=[],assume=[],oracle=None,level="proof"):
    C.append({"property":p,"level":level,"technique":T,"note":note,"oracle":[oracle or "teal:.:TestOracle"+p],"bounded":bounded,"assumptions":assume})
c("C01","Scan, Curr, Return and readTokens verified for all byte strings against ghost line/column functions of the source; utf8.DecodeRune and strings.ReplaceAll are assumed by contract.")
c("C02","The scanner, the token reader, every line parser, the linter, Process's per-line closure and Process itself terminate and never panic for any source (safety obligations and variants); the position queries are bounded (oracle).",
  bounded=["editor queries at every position (ArgAt, DocAt, InlayHints)"],assume=["the static opcode and rule tables are complete (opsTable, lintTable), as built by the package initialiser"])
c("C03","Process and its per-line closure, every opcode's parse function, every linter rule and Lint verified for all sources: exactly one listing entry per line of tokens, every diagnostic on an existing line, a refused line leaves exactly one diagnostic and everything before unchanged.",
  assume=["the static opcode and rule tables are complete (opsTable, lintTable), as built by the package initialiser"])
c("C04","Label tables and the three rules verified exactly (count per line) for every listing.")
c("C05","The five control-flow rules verified exactly (count per line) for every listing, against recursive ghost definitions of reachability, escape and nearest target.")
c("C06","Every field reader is verified to accept a name exactly from its own version (and inner-transaction version) on and to resolve it to its own number, and every opcode's parse function to require exactly its version and mode, for all token lists; the per-line closure of Process is verified to refuse an opcode exactly when the version or mode does not offer it.",bounded=["contents of the static field and opcode tables (exhaustive comparison with the bundled specification)"])
c("C07","Every opcode's parse function is verified to accept exactly the well-formed immediates, to store exactly the values they denote (numbers, bytes, quoted text, label lists) and to leave surplus tokens to checkSurplus, which reports them; a line is accepted only when every token was read, for all token lists. strconv, hex, base32, base64 and address decoding are uninterpreted functions of their text.")
c("C08","Every lookup function is verified against its postcondition for all tables and ranges; Process is verified to list exactly the label lines, in order and with the defining token's name and position, and as missing exactly the references no label defines, for all sources.",bounded=["which tokens of a branch instruction enter the reference table"])
c("C10","Sorting, length and delta encoding verified for every token list.")
c("C11","The Execute method of every simulated instruction verified against the arity and types of the bundled language specification for every stack.")
c("C12","NewVm, Step, fork, exit, nop skipping, Switch and every instruction's Execute and Cost verified for all programs, states and step sequences: no two branches share storage, at most one branch changes per step, budgets never rise or become negative, an instruction without a price of its own costs exactly 1.",bounded=["the exact price of the instructions that have one of their own"],assume=["the price tables (ecdsaVerifyCosts, ecdsaDecompressCosts) hold no negative price"])
c("C13","NewVm, SetBreakpoints, breakpoint arrival, fork, Step, Switch, Run and every instruction's Execute verified for all programs, breakpoint sets and step sequences: recorded are exactly the branches that arrive on a breakpoint, and Run stops at the first step that records one.",bounded=["the DAP messages of dbg"],assume=["nhits is a ghost count of the steps that record an arrival, advanced by Step's trusted clause"])
c("C14","Compile and printing verified for every nesting depth.")
c("C15","Each optimiser pass verified for every listing.")
c("C16","Every opcode's parse function is verified to produce exactly the instruction its immediates denote, for all token lists, and the String method of every instruction the parser can produce (186 methods) is verified to print the opcode that parses to its type followed by its immediates in the order the parser reads them, separated by single blanks, numbers in decimal, fields by name or number, bytes in hexadecimal or base64.",bounded=["name tables of fields (static data, enumerated)","table from opcode name to parse function (static data, enumerated)","the composition of the two halves"],assume=["strconv.ParseUint and ParseInt invert decimal formatting; hex and base64 decoding invert encoding"])
c("C09","handle (every method), prepare, Results, Update, reply verified for all messages and document tables: open/change/close update exactly the named document, a cached analysis is always that of the current text, a request on an unknown document is not answered, every successful document request writes exactly one response with its own id.",bounded=["framing and JSON encoding of messages","Run loop","contents of rename, highlight and definition answers beyond the lookups they are built from (C08)"],assume=["messages decode to parameters that are present (read[T])","the output stream accepts every message"],oracle="lsp:lsp:TestOracleC09")
c("C17","tealsarif run verified for every list of files and diagnostics: one result per diagnostic, in order, with its rule, level, message, 1-based position and file; every rule declared. Directory traversal and JSON encoding are bounded (oracle).",bounded=["which files the directory walk visits","JSON encoding of the report"],assume=["os.ReadFile, filepath.WalkDir, json.MarshalIndent and url.URL.String as in contracts/c17_sarif.vc"],oracle="sarif:cmd/tealsarif:TestOracleC17")
json.dump(C,open('checks.json','w'),indent=1); open('checks.json','a').write('\n')
