# C02/C03: the line parser. A parser context in mid-line:
#  args: cursor within the tokens of one line; every token lies on that line and has text
def argsOK(a) = a != nil && 0 <= a.i && a.i <= len(a.ts) + 1
def tokOK(t, line) = t.l == line && 0 <= t.b && t.b <= t.e && len(t.v) > 0
def toksOK(c) = forall(k, 0, len(c.args.ts), tokOK(c.args.ts[k], c.line))
def apart(s, t) = base(s) == 0 || base(s) != base(t)
def sepRefs(c) = apart(c.nums, c.refs) && apart(c.strs, c.refs) && apart(c.keys, c.refs) && apart(c.mcrs, c.refs)
def sepOK(c) = sepRefs(c) && apart(c.nums, c.args.ts) && apart(c.strs, c.args.ts) && apart(c.keys, c.args.ts) && apart(c.mcrs, c.args.ts) && apart(c.refs, c.args.ts)
def pcOK(c) = c != nil && argsOK(c.args) && len(c.args.ts) > 0 && 1 <= c.args.i && c.refc != nil && c.protos != nil && toksOK(c) && sepOK(c)
# the diagnostic d points into the current line
def onLine(d, c) = is(d, parseError) && as(d, parseError).l == c.line && 0 <= as(d, parseError).b && as(d, parseError).b <= as(d, parseError).e

def P(c) = as(c, *parserContext)

functype func(teal.ProcessContext)(c)
  props C02 C03
  dyn c *parserContext
  requires pcOK(P(c))
  ensures ctx: pcOK(P(c))
  ensures one: len(P(c).ops) == old(len(P(c).ops)) + 1
  ensures prefix: forall(k, 0, old(len(P(c).ops)), P(c).ops[k] == old(P(c).ops[k]))
  ensures nodiag: P(c).diag == old(P(c).diag) && forall(k, 0, old(len(P(c).diag)), P(c).diag[k] == old(P(c).diag[k]))
  ensures wf: wfop(P(c).ops[old(len(P(c).ops))])
  ensures version: P(c).version == old(P(c).version)
  ensures bases: bases(P(c))
  panics version: P(c).version == old(P(c).version)
  panics bases: bases(P(c))
  panics kind: is(panicval, recoverable)
  panics ctx: pcOK(P(c))
  panics noop: len(P(c).ops) == old(len(P(c).ops)) && forall(k, 0, old(len(P(c).ops)), P(c).ops[k] == old(P(c).ops[k]))
  panics onediag: len(P(c).diag) == old(len(P(c).diag)) + 1 && forall(k, 0, old(len(P(c).diag)), P(c).diag[k] == old(P(c).diag[k])) && onLine(P(c).diag[old(len(P(c).diag))], P(c))
  modifies P(c).ops, P(c).diag, P(c).nums, P(c).strs, P(c).keys, P(c).mcrs, P(c).refs, P(c).vtok, P(c).label, P(c).args.i, elems(P(c).ops), elems(P(c).diag), elems(P(c).nums), elems(P(c).strs), elems(P(c).keys), elems(P(c).mcrs), elems(P(c).refs), mapof(P(c).refc), mapof(P(c).protos)

def bases(c) = (base(c.strs) == old(base(c.strs)) || fresh(c.strs)) && (base(c.keys) == old(base(c.keys)) || fresh(c.keys)) && (base(c.nums) == old(base(c.nums)) || fresh(c.nums)) && (base(c.refs) == old(base(c.refs)) || fresh(c.refs)) && (base(c.diag) == old(base(c.diag)) || fresh(c.diag)) && (base(c.mcrs) == old(base(c.mcrs)) || fresh(c.mcrs)) && (base(c.ops) == old(base(c.ops)) || fresh(c.ops))
def opsKept(c) = c.ops == old(c.ops) && forall(k, 0, old(len(c.ops)), c.ops[k] == old(c.ops[k]))
def diagKept(c) = c.diag == old(c.diag) && forall(k, 0, old(len(c.diag)), c.diag[k] == old(c.diag[k]))
def oneDiag(c) = len(c.diag) == old(len(c.diag)) + 1 && forall(k, 0, old(len(c.diag)), c.diag[k] == old(c.diag[k])) && onLine(c.diag[old(len(c.diag))], c)

def curV(c) = old(c.args.ts[c.args.i-1].v)
def nextV(c) = old(c.args.ts[c.args.i].v)
def moreV(c) = old(c.args.i < len(c.args.ts))
func teal.(*parserContext).parseBytes(c, name) (r)
  props C02 C03 C07
  requires pcOK(c) && c.args.i <= len(c.args.ts)
  ensures ctx: pcOK(c) && opsKept(c) && diagKept(c) && bases(c) && c.args.i >= old(c.args.i)
  ensures accepted: bOK(curV(c), moreV(c), nextV(c))
  ensures bytes: bIs(r, curV(c), nextV(c))
  ensures used: c.args.i == old(c.args.i) + bUsed(curV(c))
  ensures fresh: base(r) == 0 || fresh(r)
  panics rejected: !bOK(curV(c), moreV(c), nextV(c))
  panics fail: is(panicval, recoverable) && pcOK(c) && opsKept(c) && oneDiag(c) && bases(c)
  modifies c.strs, c.keys, c.diag, c.args.i, elems(c.strs), elems(c.keys), elems(c.diag), newelems(Token), newelems(Diagnostic), newelems(byte)

func teal.(*parserContext).readBytesArray(c, name) (r)
  props C02 C03 C07
  requires pcOK(c)
  ensures ctx: pcOK(c) && opsKept(c) && diagKept(c) && bases(c) && c.args.i >= old(c.args.i)
  ensures accepted: bAll(c.args.ts, len(c.args.ts) - old(c.args.i))
  ensures whole: imp(old(c.args.i <= len(c.args.ts)), bpos(c.args.ts, old(c.args.i), len(r)) == len(c.args.ts))
  ensures empty: imp(old(c.args.i >= len(c.args.ts)), len(r) == 0)
  ensures end: c.args.i >= len(c.args.ts)
  ensures values: forall(k, 0, len(r), bAt(r[k], c.args.ts, bpos(c.args.ts, old(c.args.i), k)))
  panics rejected: !bAll(c.args.ts, len(c.args.ts) - old(c.args.i))
  panics fail: is(panicval, recoverable) && pcOK(c) && opsKept(c) && oneDiag(c) && bases(c)
  flags terminates
  modifies c.strs, c.keys, c.diag, c.args.i, elems(c.strs), elems(c.keys), elems(c.diag), newelems(Token), newelems(Diagnostic), newelems(byte), newelems([]byte)
  invariant pcOK(c)
  invariant opsKept(c) && diagKept(c)
  invariant c.args == old(c.args) && c.args.ts == old(c.args.ts)
  invariant <r:[][]byte> imp(old(c.args.i) <= len(c.args.ts), c.args.i == bpos(c.args.ts, old(c.args.i), len(r)))
  invariant imp(old(c.args.i) <= len(c.args.ts), c.args.i <= len(c.args.ts))
  invariant <r:[][]byte> imp(old(c.args.i) > len(c.args.ts), c.args.i == old(c.args.i) && len(r) == 0)
  invariant iff(bAll(c.args.ts, len(c.args.ts) - old(c.args.i)), bAll(c.args.ts, len(c.args.ts) - c.args.i))
  invariant <r:[][]byte> imp(old(c.args.i >= len(c.args.ts)), len(r) == 0)
  invariant <r:[][]byte> forall(k, 0, len(r), base(r[k]) < alloc() && bAt(r[k], c.args.ts, bpos(c.args.ts, old(c.args.i), k)))
  decreases len(c.args.ts) + 1 - c.args.i

func teal.(*parserContext).readUint64Array(c, name) (r)
  props C02 C03 C07
  requires pcOK(c)
  ensures ctx: pcOK(c) && opsKept(c) && diagKept(c) && bases(c) && c.args.i >= old(c.args.i)
  ensures accepted: forall(k, old(c.args.i), len(c.args.ts), okU64(c.args.ts[k].v))
  ensures count: len(r) == ite(old(c.args.i <= len(c.args.ts)), len(c.args.ts) - old(c.args.i), 0)
  ensures end: c.args.i >= len(c.args.ts)
  ensures values: forall(k, 0, len(r), r[k] == u64(c.args.ts[old(c.args.i)+k].v))
  panics rejected: !forall(k, old(c.args.i), len(c.args.ts), okU64(c.args.ts[k].v))
  panics fail: is(panicval, recoverable) && pcOK(c) && opsKept(c) && oneDiag(c) && bases(c)
  flags terminates
  modifies c.nums, c.diag, c.args.i, elems(c.nums), elems(c.diag), newelems(Token), newelems(Diagnostic), newelems(uint64)
  invariant pcOK(c)
  invariant opsKept(c) && diagKept(c)
  invariant c.args == old(c.args) && c.args.ts == old(c.args.ts) && c.args.i >= old(c.args.i)
  invariant imp(old(c.args.i) <= len(c.args.ts), c.args.i <= len(c.args.ts))
  invariant imp(old(c.args.i) > len(c.args.ts), c.args.i == old(c.args.i))
  invariant <r:[]uint64> len(r) == c.args.i - old(c.args.i)
  invariant forall(k, old(c.args.i), c.args.i, imp(k < len(c.args.ts), okU64(c.args.ts[k].v)))
  invariant <r:[]uint64> forall(k, 0, len(r), r[k] == u64(c.args.ts[old(c.args.i)+k].v))
  decreases len(c.args.ts) + 1 - c.args.i

func teal.(*parserContext).readLabelsArray(c, name) (r)
  props C02 C03 C07 C08
  requires pcOK(c)
  ensures ctx: pcOK(c) && opsKept(c) && diagKept(c) && bases(c) && c.args.i >= old(c.args.i)
  ensures count: len(r) == ite(old(c.args.i <= len(c.args.ts)), len(c.args.ts) - old(c.args.i), 0)
  ensures end: c.args.i >= len(c.args.ts)
  ensures values: forall(k, 0, len(r), r[k] == c.args.ts[old(c.args.i)+k].v)
  ensures refs: len(c.refs) == old(len(c.refs)) + len(r)
  ensures kept: forall(k, 0, old(len(c.refs)), c.refs[k] == old(c.refs[k]))
  ensures new: forall(k, old(len(c.refs)), len(c.refs), c.refs[k] == c.args.ts[old(c.args.i)+k-old(len(c.refs))])
  flags terminates
  modifies c.refs, c.args.i, elems(c.refs), newelems(Token), newelems(string)
  invariant pcOK(c)
  invariant opsKept(c) && diagKept(c)
  invariant c.args == old(c.args) && c.args.ts == old(c.args.ts) && c.args.i >= old(c.args.i)
  invariant imp(old(c.args.i) <= len(c.args.ts), c.args.i <= len(c.args.ts))
  invariant imp(old(c.args.i) > len(c.args.ts), c.args.i == old(c.args.i))
  invariant <r:[]string> len(r) == c.args.i - old(c.args.i)
  invariant len(c.refs) == old(len(c.refs)) + c.args.i - old(c.args.i)
  invariant <r:[]string> forall(k, 0, len(r), r[k] == c.args.ts[old(c.args.i)+k].v)
  invariant forall(k, 0, old(len(c.refs)), c.refs[k] == old(c.refs[k]))
  invariant forall(k, old(len(c.refs)), len(c.refs), c.refs[k] == c.args.ts[old(c.args.i)+k-old(len(c.refs))])
  decreases len(c.args.ts) + 1 - c.args.i
