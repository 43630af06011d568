# Process: the whole analysis of a source
def lintTable() = rn(LintRules, 1, len(LintRules)) == 1 && rn(LintRules, 2, len(LintRules)) == 1 && rn(LintRules, 3, len(LintRules)) == 1 && rn(LintRules, 4, len(LintRules)) == 1 && rn(LintRules, 6, len(LintRules)) == 1 && rn(LintRules, 7, len(LintRules)) == 1
def opsTable() = Ops != nil && all(n, string, imp(dom(Ops.Items, n), Ops.Items[n].Parse != nil))
rec ext ls(ts []Token, i int) int = ite(i <= 0, 0, ite(ts[i-1].t == "EOL", i, ls(ts, i-1)))
lemma lsLe(ts []Token, i int) by i trigger(ls(ts, i)): imp(0 <= i, 0 <= ls(ts, i) && ls(ts, i) <= i)
def lineOK(l, line) = forall(j, 0, len(l), l[j].l == line && tokShape(l[j]) && l[j].t != "EOL" && imp(l[j].t == "Comment", j == len(l)-1))
def cutOK(l, line) = forall(j, 0, len(l), l[j].l == line && tokShape(l[j]) && l[j].t != "EOL" && imp(l[j].t == "Comment", j == 0))
def diagLine(d) = ite(is(d, lexerError), as(d, lexerError).l, ite(is(d, parseError), as(d, parseError).l, as(d, lintError).l))
def dknown(d) = is(d, lexerError) || is(d, parseError) || is(d, lintError)
def dOK(d, n) = dknown(d) && 0 <= diagLine(d) && diagLine(d) < n

def lineCtx(c) = c != nil && c.args != nil && c.args.i == 0 && c.refc != nil && c.protos != nil && cutOK(c.args.ts, c.line) && sepOK(c) && c.line >= 0
def apartOps(o, c) = apart(o, c.args.ts) && apart(o, c.refs) && apart(o, c.nums) && apart(o, c.strs) && apart(o, c.keys) && apart(o, c.mcrs)

# C08: a line that defines a label, and the symbol of such a line
def lblTok(ts) = len(ts) > 0 && ts[0].t != "Comment" && len(ts[0].v) > 1 && ts[0].v[len(ts[0].v)-1] == 58
def symIs(s, t) = s.n == t.v[:len(t.v)-1] && s.l == t.l && s.b == t.b && s.e == t.e

# C06: an opcode the program's version or mode does not offer is reported
def isOpLine(ts) = len(ts) > 0 && ts[0].t != "Comment" && ts[0].v[len(ts[0].v)-1] != 58 && ts[0].v != "#pragma" && dom(Ops.Items, ts[0].v)
def minV(c) = ite(c.mode == ModeApp, Ops.Items[c.args.ts[0].v].AppVersion, ite(c.mode == ModeSig, Ops.Items[c.args.ts[0].v].SigVersion, 0))
def tooNew(c) = isOpLine(c.args.ts) && minV(c) > c.version
def noMode(c) = isOpLine(c.args.ts) && minV(c) == 0

func teal.Process$1()
  props C02 C03 C06 C07 C08
  requires opsTable() && Empty != nil
  requires lineCtx(c) && apartOps(ops, c) && len(c.args.ts) >= 0
  ensures one: len(c.ops) == old(len(c.ops)) + 1 && forall(k, 0, old(len(c.ops)), c.ops[k] == old(c.ops[k]))
  ensures wf: wfop(c.ops[old(len(c.ops))])
  ensures diags: len(c.diag) >= old(len(c.diag)) && forall(k, 0, old(len(c.diag)), c.diag[k] == old(c.diag[k]))
  ensures syms: len(lsyms) >= old(len(lsyms)) && forall(k, 0, old(len(lsyms)), lsyms[k] == old(lsyms[k]))
  ensures newsyms: forall(k, old(len(lsyms)), len(lsyms), lsyms[k] != nil && fresh(lsyms[k]) && ref(lsyms[k]) < alloc() && lsyms[k].l == c.line)
  ensures symcount: len(lsyms) == old(len(lsyms)) + ite(lblTok(c.args.ts), 1, 0)
  ensures symnew: imp(lblTok(c.args.ts), symIs(lsyms[old(len(lsyms))], c.args.ts[0]))
  ensures surplus: imp(old(isOpLine(c.args.ts)) && len(c.diag) == old(len(c.diag)), c.args.i >= len(c.args.ts))
  ensures required: len(vers) == old(len(vers)) + ite(old(tooNew(c)), 1, 0) && forall(k, 0, old(len(vers)), vers[k] == old(vers[k]))
  ensures requiredVersion: imp(old(tooNew(c)), vers[old(len(vers))].Version == old(minV(c)) && vers[old(len(vers))].Line == c.line)
  ensures refused: imp(old(tooNew(c) || noMode(c)), len(c.diag) > old(len(c.diag)) && is(c.diag[old(len(c.diag))], lintError) && as(c.diag[old(len(c.diag))], lintError).l == c.line && as(c.diag[old(len(c.diag))], lintError).s == DiagErr && as(c.diag[old(len(c.diag))], lintError).r == ite(old(noMode(c)), "LINT0007", "LINT0008"))
  ensures accepted: imp(!old(tooNew(c) || noMode(c)), forall(k, old(len(c.diag)), len(c.diag), is(c.diag[k], parseError)))
  ensures newdiags: forall(k, old(len(c.diag)), len(c.diag), dknown(c.diag[k]) && diagLine(c.diag[k]) == c.line)
  ensures base_strs: base(c.strs) == old(base(c.strs)) || fresh(c.strs)
  ensures base_keys: base(c.keys) == old(base(c.keys)) || fresh(c.keys)
  ensures base_nums: base(c.nums) == old(base(c.nums)) || fresh(c.nums)
  ensures base_refs: base(c.refs) == old(base(c.refs)) || fresh(c.refs)
  ensures base_diag: base(c.diag) == old(base(c.diag)) || fresh(c.diag)
  ensures base_mcrs: base(c.mcrs) == old(base(c.mcrs)) || fresh(c.mcrs)
  ensures base_ops: base(c.ops) == old(base(c.ops)) || fresh(c.ops)
  ensures base_comments: base(c.comments) == 0 || base(c.comments) == old(base(c.comments)) || fresh(c.comments)
  ensures b_ops: base(ops) == old(base(ops)) || fresh(ops)
  ensures b_lsyms: base(lsyms) == old(base(lsyms)) || fresh(lsyms)
  ensures b_vers: base(vers) == old(base(vers)) || fresh(vers)
  ensures sep_strs: apart(c.strs, c.refs) && apart(c.strs, c.args.ts)
  ensures sep_keys: apart(c.keys, c.refs) && apart(c.keys, c.args.ts)
  ensures sep_nums: apart(c.nums, c.refs) && apart(c.nums, c.args.ts)
  ensures sep_mcrs: apart(c.mcrs, c.refs) && apart(c.mcrs, c.args.ts)
  ensures sep_refs: apart(c.refs, c.args.ts)
  ensures sep_ops_argsts: apart(ops, c.args.ts)
  ensures sep_ops_refs: apart(ops, c.refs)
  ensures sep_ops_nums: apart(ops, c.nums)
  ensures sep_ops_strs: apart(ops, c.strs)
  ensures sep_ops_keys: apart(ops, c.keys)
  ensures sep_ops_mcrs: apart(ops, c.mcrs)
  modifies ops, lsyms, vers, c.ops, c.diag, c.nums, c.strs, c.keys, c.mcrs, c.refs, c.vtok, c.label, c.version, c.mode, c.comments, c.args.i, elems(c.ops), elems(c.diag), elems(c.nums), elems(c.strs), elems(c.keys), elems(c.mcrs), elems(c.refs), elems(c.comments), elems(ops), elems(lsyms), elems(vers), mapof(c.refc), mapof(c.protos)
  flags terminates


# one listing entry per source line, whatever the lines hold
def symOf(s, ln) = lblTok(ln) && symIs(s, ln[0])
def symNamed(s, n) = exists(j, 0, len(s), s[j].n == n)
def tabNamed(r, n) = exists(j, 0, len(r.Symbols), as(r.Symbols[j], *labelSymbol).n == n)

func teal.Process'main(source) (r)
  props C02 C03 C08
  requires lintTable() && opsTable() && Empty != nil
  ensures one: r != nil && len(r.Listing) == len(r.Lines) && len(r.Lines) == nlines(r.Tokens)
  ensures diags: forall(k, 0, len(r.Diagnostics), dOK(r.Diagnostics[k], len(r.Lines)))
  ensures syms: forall(k, 0, len(r.Symbols), r.Symbols[k] != nil)
  ensures symtab: forall(j, 0, len(r.Symbols), is(r.Symbols[j], *labelSymbol) && 0 <= as(r.Symbols[j], *labelSymbol).l && as(r.Symbols[j], *labelSymbol).l < len(r.Lines))
  ensures symline: forall(j, 0, len(r.Symbols), symOf(as(r.Symbols[j], *labelSymbol), r.Lines[as(r.Symbols[j], *labelSymbol).l]))
  ensures symorder: forall(a, 0, len(r.Symbols), forall(b, 0, a, as(r.Symbols[b], *labelSymbol).l < as(r.Symbols[a], *labelSymbol).l))
  ensures symall: forall(k, 0, len(r.Lines), imp(lblTok(r.Lines[k]), exists(j, 0, len(r.Symbols), as(r.Symbols[j], *labelSymbol).l == k)))
  ensures missing: forall(j, 0, len(r.MissRefs), !tabNamed(r, r.MissRefs[j].v))
  ensures missingRef: forall(j, 0, len(r.MissRefs), exists(k, 0, len(r.SymbolRefs), r.MissRefs[j] == r.SymbolRefs[k]))
  ensures allmissing: forall(k, 0, len(r.SymbolRefs), imp(!tabNamed(r, r.SymbolRefs[k].v), exists(j, 0, len(r.MissRefs), r.MissRefs[j] == r.SymbolRefs[k])))
  flags terminates lean
  invariant @5/9 <i:idx~rangeindex+1, m:map[string]bool, s:[]*labelSymbol~lsyms> all(n, string, iff(dom(m, n), exists(j, 0, i, j < len(s) && s[j].n == n)))
  invariant @6/9 <m:map[string]bool, x:![]Token~mrefs> forall(j, 0, len(x), !dom(m, x[j].v))
  invariant @6/9 <i:idx~rangeindex+1, x:![]Token~mrefs, c:*parserContext> i <= len(c.refs) && forall(j, 0, len(x), exists(k, 0, i, x[j] == c.refs[k]))
  invariant @6/9 <i:idx~rangeindex+1, m:map[string]bool, x:![]Token~mrefs, c:*parserContext> forall(k, 0, i, imp(!dom(m, c.refs[k].v), exists(j, 0, len(x), x[j] == c.refs[k])))
  invariant @6/9 <x:![]Token~mrefs, c:*parserContext> apart(x, c.refs)
  invariant @3/9 <lts:![]Line~lts, ts:^[]Token~t13> forall(k, 0, len(lts), base(lts[k]) == base(ts))
  invariant @3/9 <s:[]*labelSymbol~lsyms, lts:![]Line~lts> forall(j, 0, len(s), 0 <= s[j].l && s[j].l < len(lts))
  invariant @3/9 <s:[]*labelSymbol~lsyms, lts:![]Line~lts> forall(j, 0, len(s), symOf(s[j], lts[s[j].l]))
  invariant @3-8/9 <s:[]*labelSymbol~lsyms> forall(a, 0, len(s), forall(b, 0, a, s[b].l < s[a].l))
  invariant @3/9 <s:[]*labelSymbol~lsyms, lts:![]Line~lts> forall(k, 0, len(lts), imp(lblTok(lts[k]), exists(j, 0, len(s), s[j].l == k)))
  invariant @4-8/9 <lts:^[]Line~t61, ts:^[]Token~t13> forall(k, 0, len(lts), base(lts[k]) == base(ts))
  invariant @4-8/9 <s:[]*labelSymbol~lsyms, lts:^[]Line~t61> forall(j, 0, len(s), 0 <= s[j].l && s[j].l < len(lts))
  invariant @4-8/9 <s:[]*labelSymbol~lsyms, lts:^[]Line~t61> forall(j, 0, len(s), symOf(s[j], lts[s[j].l]))
  invariant @4-8/9 <s:[]*labelSymbol~lsyms, lts:^[]Line~t61> forall(k, 0, len(lts), imp(lblTok(lts[k]), exists(j, 0, len(s), s[j].l == k)))
  invariant @8/9 <i:int~i, y:[]Symbol~$, s:[]*labelSymbol~lsyms> len(y) == len(s) && forall(k, 0, i, imp(k < len(y), is(y[k], *labelSymbol) && as(y[k], *labelSymbol) == s[k]))
  invariant @1/9 <i:int~i, ts:[]Token~$, lines:![]Line~lines> len(lines) == ite(i < len(ts), eols(ts, i), nlines(ts))
  invariant @1/9 <i:int~i, p:int~p, ts:[]Token~$> imp(i < len(ts), p == ls(ts, i))
  invariant @1/9 <i:int~i, p:int~p> 0 <= p && p <= i
  invariant @1/9 <i:int~i, ts:[]Token~$> i <= len(ts)
  invariant @1/9 <i:int~i, p:int~p, ts:[]Token~$> imp(i < len(ts), forall(j, 0, i-p, ts[p:i][j].l == eols(ts, i) && tokShape(ts[p:i][j]) && ts[p:i][j].t != "EOL" && imp(ts[p:i][j].t == "Comment", j == i-p-1)))
  invariant @1/9 <ts:[]Token~$, lines:![]Line~lines> forall(k, 0, len(lines), base(lines[k]) == base(ts))
  invariant @1/9 <lines:![]Line~lines> forall(k, 0, len(lines), lineOK(lines[k], k))
  invariant @1/9 <lines:![]Line~lines> fresh(lines)
  invariant @2,9/9 <ts:^[]Token, lines:[]Line~t24> forall(k, 0, len(lines), base(lines[k]) == base(ts))
  invariant @2,9/9 <lines:[]Line~$> forall(k, 0, len(lines), lineOK(lines[k], k))
  invariant @2,3/9 <i:idx~rangeindex+1, lines:[]Line~t24> 0 <= i && i <= len(lines)
  invariant @2/9 <i:idx~rangeindex+1, lines:[]Line~$> forall(k, 0, i, imp(k < len(lines), cutOK(lines[k], k)))
  invariant @9/9 <o:oidx~outer.rangeindex+1, lines:[]Line~$> forall(k, 0, o, imp(k < len(lines), cutOK(lines[k], k)))
  invariant @9/9 <o:oidx~outer.rangeindex+1, i:int~i, lines:[]Line~$> forall(j, 1, i, imp(j < len(lines[o]), lines[o][j].t != "Comment"))
  invariant @9/9 <o:oidx~outer.rangeindex+1, l:Line, lines:[]Line~$> len(lines[o]) <= len(l)
  invariant @9/9 <o:oidx~outer.rangeindex+1, l:Line, lines:[]Line~$> base(lines[o]) == base(l) && off(lines[o]) == off(l)
  invariant @9/9 <i:int~i> i >= 1
  invariant @2-6/9 <i:idx~rangeindex+1> i >= 0
  invariant @7,8/9 <i:int~i> i >= 0
  invariant @3/9 <ts:^[]Token, lines:^[]Line~t24> forall(k, 0, len(lines), base(lines[k]) == base(ts))
  invariant @3/9 <lines:^[]Line~t24> forall(k, 0, len(lines), cutOK(lines[k], k))
  invariant @3-8/9 <ts:^[]Token~t13, lines:^[]Line~t24> len(lines) == nlines(ts)
  invariant @3/9 <c:*parserContext> c.refc != nil && c.protos != nil
  invariant @3/9 <c:*parserContext, ts:^[]Token> apart(c.nums, ts) && apart(c.strs, ts) && apart(c.keys, ts) && apart(c.mcrs, ts) && apart(c.refs, ts)
  invariant @3/9 <c:*parserContext> apart(c.nums, c.refs) && apart(c.strs, c.refs) && apart(c.keys, c.refs) && apart(c.mcrs, c.refs)
  invariant @3/9 <ops:[]Token~ops, ts:^[]Token> apart(ops, ts)
  invariant @3/9 <ops:[]Token~ops, c:*parserContext> apart(ops, c.nums) && apart(ops, c.strs) && apart(ops, c.keys) && apart(ops, c.mcrs) && apart(ops, c.refs)
  invariant @3/9 <c:*parserContext, i:idx~rangeindex+1> len(c.ops) == i
  invariant @3/9 <lts:![]Line~lts, lines:^[]Line~t24> apart(lts, lines)
  invariant @3/9 <lts:![]Line~lts, i:idx~rangeindex+1> len(lts) == i
  invariant @3-8/9 <c:*parserContext> forall(k, 0, len(c.ops), wfop(c.ops[k]))
  invariant @3/9 <c:*parserContext, lines:^[]Line~t24> forall(k, 0, len(c.diag), dOK(c.diag[k], len(lines)))
  invariant @4/9 <c:*parserContext, lts:[]Line~$> forall(k, 0, len(c.diag), dOK(c.diag[k], len(lts)))
  invariant @3-8/9 <s:[]*labelSymbol~$> forall(k, 0, len(s), s[k] != nil && fresh(s[k]) && ref(s[k]) < alloc())
  invariant @8/9 <i:int~i, s:[]Symbol~$> forall(k, 0, i, imp(k < len(s), s[k] != nil))
  invariant @6/9 <m:![]Token~mrefs, ts:^[]Token> apart(m, ts)
