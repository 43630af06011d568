# C11-C13: the simulator
# a branch with a stack
def VS(b) = b != nil && b.Stack != nil
# value v can be consumed as type t (1 any, 2 integer, 3 bytes)
def tyOK(t, v) = t == 1 || v.T == 1 || v.T == t
def valT(t) = 1 <= t && t <= 3
# the type of a field with specified type ft
def fieldOK(ft) = 0 <= ft && ft <= 3
def fieldVm(ft, t) = fieldOK(ft) && t == ft
# the branch keeps its stack object, and the stack its storage or a new one
def own(b) = b.Stack == old(b.Stack) && (base(b.Stack.Items) == old(base(b.Stack.Items)) || fresh(b.Stack.Items))
# a stuck instruction leaves its branch on its line or the next
def stay(b) = b.Line == old(b.Line) || b.Line == old(b.Line) + 1

func teal.(*VmBranch).pop(b, t) (r)
  props C11
  requires VS(b)
  ensures top: old(len(b.Stack.Items)) > 0 && r == old(b.Stack.Items[len(b.Stack.Items)-1]) && tyOK(t, r)
  ensures rest: len(b.Stack.Items) == old(len(b.Stack.Items)) - 1 && base(b.Stack.Items) == old(base(b.Stack.Items)) && off(b.Stack.Items) == old(off(b.Stack.Items))
  panics stuck: (len(b.Stack.Items) == 0 || !tyOK(t, b.Stack.Items[len(b.Stack.Items)-1])) && b.Stack.Items == old(b.Stack.Items)
  modifies b.Stack.Items

func teal.(*VmBranch).push(b, v)
  props C11
  requires VS(b)
  ensures top: len(b.Stack.Items) == old(len(b.Stack.Items)) + 1 && b.Stack.Items[old(len(b.Stack.Items))] == v
  ensures below: forall(k, 0, old(len(b.Stack.Items)), b.Stack.Items[k] == old(b.Stack.Items[k]))
  ensures store: own(b)
  modifies b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*VmBranch).peek(b, index) (r)
  props C11
  flags rtexit
  requires VS(b)
  ensures value: 0 <= index && index < len(b.Stack.Items) && r == b.Stack.Items[len(b.Stack.Items)-1-index]
  panics none: !(0 <= index && index < len(b.Stack.Items))
  modifies nothing

func teal.(*VmBranch).replace(b, n, v)
  props C11
  flags rtexit
  requires VS(b)
  ensures value: 0 <= n && n < len(b.Stack.Items) && b.Stack.Items[n] == v
  ensures others: b.Stack.Items == old(b.Stack.Items) && forall(k, 0, len(b.Stack.Items), imp(k != n, b.Stack.Items[k] == old(b.Stack.Items[k])))
  panics none: !(0 <= n && n < len(b.Stack.Items))
  modifies elems(b.Stack.Items)

func teal.(*VmBranch).prepare(b, a, r)
  props C11
  flags rtexit
  requires b != nil
  ensures frame: len(b.Frames) > 0 && b.Frames == old(b.Frames) && b.Frames[len(b.Frames)-1].NumArgs == a && b.Frames[len(b.Frames)-1].NumReturns == r && b.Frames[len(b.Frames)-1].prepared && b.Frames[len(b.Frames)-1].p == old(b.Frames[len(b.Frames)-1].p) && b.Frames[len(b.Frames)-1].Return == old(b.Frames[len(b.Frames)-1].Return) && b.Frames[len(b.Frames)-1].Name == old(b.Frames[len(b.Frames)-1].Name)
  ensures others: forall(k, 0, len(b.Frames)-1, b.Frames[k] == old(b.Frames[k]))
  panics none: len(b.Frames) == 0
  modifies elems(b.Frames)

# stores into the scratch space touch nothing else
func teal.(*VmBranch).store(b, index, v)
  props C11
  flags rtexit
  requires b != nil && b.vm != nil
  panics range: is(index.src, vmUint64Const) && as(index.src, vmUint64Const).v >= 256
  modifies b.vm.Scratch

# the line of a label, or -1
func teal.(*Vm).find(v, target) (r)
  props C11 C12
  requires v != nil && v.syms != nil
  ensures line: r == ite(dom(v.syms, target), v.syms[target], -1)
  modifies nothing

func teal.(*VmBranch).jump(b, target)
  props C11
  requires b != nil && b.vm != nil && b.vm.syms != nil
  ensures line: b.Line == ite(dom(b.vm.syms, target), b.vm.syms[target], -1)
  modifies b.Line

func teal.(*VmBranch).exit(b)
  props C11 C12
  requires b != nil
  ensures out: b.Line == -1
  modifies b.Line, b.Name

func teal.(*VmBranch).call(b, target)
  props C11
  requires VS(b) && b.vm != nil && b.vm.syms != nil
  ensures line: b.Line == ite(dom(b.vm.syms, target), b.vm.syms[target], -1)
  ensures frame: len(b.Frames) == old(len(b.Frames)) + 1 && b.Frames[old(len(b.Frames))].Return == old(b.Line) && b.Frames[old(len(b.Frames))].p == len(b.Stack.Items) && !b.Frames[old(len(b.Frames))].prepared && b.Frames[old(len(b.Frames))].NumArgs == 0 && b.Frames[old(len(b.Frames))].NumReturns == 0
  ensures others: forall(k, 0, old(len(b.Frames)), b.Frames[k] == old(b.Frames[k]))
  ensures store: base(b.Frames) == old(base(b.Frames)) || fresh(b.Frames)
  modifies b.Line, b.Frames, elems(b.Frames), newelems(VmFrame)

func teal.(*vmStack).clone(s) (r)
  props C12
  requires s != nil
  ensures copy: r != nil && fresh(r) && len(r.Items) == len(s.Items) && forall(k, 0, len(s.Items), r.Items[k] == s.Items[k])
  ensures apart: base(r.Items) == 0 || fresh(r.Items)
  modifies newelems(VmValue), new(vmStack)

# ---- positions: a line that is no instruction is skipped
def isNop(op) = impl(op, Nop)
def opOK(op) = op != nil && imp(is(op, *LabelExpr), as(op, *LabelExpr) != nil)
def listOK(L) = forall(k, 0, len(L), opOK(L[k]))
def listing(v) = v.Process.Listing
def settled(L, from, to) = ite(from == -1, to == -1, from <= to && forall(j, from, to, imp(j < len(L), isNop(L[j]))) && (to >= len(L) || !isNop(L[to])) && imp(from <= len(L), to <= len(L)))
def vmBase(v) = v != nil && v.Process != nil && v.syms != nil && v.Triggered != nil && all(n, string, imp(dom(v.syms, n), 0 <= v.syms[n] && v.syms[n] < len(listing(v))))
def symLine(v, n) = ite(dom(v.syms, n), v.syms[n], -1)

func teal.(*VmBranch).skipNops(b) (r)
  props C11 C12 C13
  requires b != nil && b.vm != nil && b.vm.Process != nil
  requires b.Line >= -1
  requires listOK(listing(b.vm))
  ensures line: settled(listing(b.vm), old(b.Line), b.Line)
  ensures found: iff(r, b.Line != -1 && b.Line < len(listing(b.vm)))
  modifies b.Line, b.Name
  flags terminates
  invariant old(b.Line) <= b.Line && forall(j, old(b.Line), b.Line, imp(j < len(listing(b.vm)), isNop(listing(b.vm)[j]))) && imp(old(b.Line) <= len(listing(b.vm)), b.Line <= len(listing(b.vm)))
  decreases len(listing(b.vm)) - b.Line

# C13: every breakpoint on the branch's line is recorded under the branch
rec nbp(s []VmBreakpoint, line int, k int) int = ite(k <= 0, 0, nbp(s, line, k-1) + ite(s[k-1].Line == line, 1, 0))
lemma nbpPos(s []VmBreakpoint, line int, k int) by k trigger(nbp(s, line, k)): 0 <= nbp(s, line, k)
lemma nbpNone(s []VmBreakpoint, line int, k int) by k trigger(nbp(s, line, k)): imp(forall(j, 0, k, s[j].Line != line), nbp(s, line, k) == 0)
lemma nbpOne(s []VmBreakpoint, line int, k int) by k trigger(nbp(s, line, k)): imp(distinctBp(s) && 0 <= k && k <= len(s), nbp(s, line, k) <= 1)
def distinctBp(s) = forall(i, 0, len(s), forall(j, 0, i, s[i].Line != s[j].Line))

# branches carry their index as id, and the map of triggered lines knows no others
def idsOK(v) = v.Id == len(v.Branches) && forall(k, 0, len(v.Branches), v.Branches[k].Id == k)
def trigDom(v) = all(i, int, imp(dom(v.Triggered, i), 0 <= i && i < v.Id))
def mapE(m) = len(m) >= 0 && iff(len(m) == 0, all(i, int, !dom(m, i)))
def costTables() = base(ecdsaVerifyCosts) < alloc() && base(ecdsaDecompressCosts) < alloc() && forall(k, 0, len(ecdsaVerifyCosts), ecdsaVerifyCosts[k] >= 0) && forall(k, 0, len(ecdsaDecompressCosts), ecdsaDecompressCosts[k] >= 0)
# the map of triggered lines never shares storage with the price tables
def trigApart(v) = all(i, int, imp(dom(v.Triggered, i), base(v.Triggered[i]) != base(ecdsaVerifyCosts) && base(v.Triggered[i]) != base(ecdsaDecompressCosts)))
def costKept(v) = costTables() && trigApart(v)
def atBp(v, ln) = nbp(v.Breakpoints, ln, len(v.Breakpoints)) > 0
# exactly the new branches that start on a breakpoint are recorded
def newTrig(b) = all(i, int, iff(dom(b.vm.Triggered, i), old(dom(b.vm.Triggered, i)) || (old(len(b.vm.Branches)) <= i && i < len(b.vm.Branches) && atBp(b.vm, b.vm.Branches[i].Line))))

func teal.(*Vm).updateBreakpoints(v, br)
  props C13
  requires v != nil && br != nil && v.Triggered != nil
  ensures count: len(v.Triggered[br.Id]) == old(len(v.Triggered[br.Id])) + nbp(v.Breakpoints, br.Line, len(v.Breakpoints))
  ensures lines: forall(k, old(len(v.Triggered[br.Id])), len(v.Triggered[br.Id]), v.Triggered[br.Id][k] == br.Line)
  ensures others: all(i, int, imp(i != br.Id, iff(dom(v.Triggered, i), old(dom(v.Triggered, i))) && v.Triggered[i] == old(v.Triggered[i])))
  ensures size: imp(old(mapE(v.Triggered)), mapE(v.Triggered))
  ensures costs: imp(old(costKept(v)), costKept(v))
  ensures none: iff(dom(v.Triggered, br.Id), old(dom(v.Triggered, br.Id)) || nbp(v.Breakpoints, br.Line, len(v.Breakpoints)) > 0)
  modifies mapof(v.Triggered), anyelems(int)
  flags terminates
  invariant <i:idx> len(v.Triggered[br.Id]) == old(len(v.Triggered[br.Id])) + nbp(v.Breakpoints, br.Line, i)
  invariant <i:idx> forall(k, old(len(v.Triggered[br.Id])), len(v.Triggered[br.Id]), v.Triggered[br.Id][k] == br.Line)
  invariant all(i, int, imp(i != br.Id, iff(dom(v.Triggered, i), old(dom(v.Triggered, i))) && v.Triggered[i] == old(v.Triggered[i])))
  invariant imp(old(mapE(v.Triggered)), mapE(v.Triggered))
  invariant imp(old(costKept(v)), costKept(v))
  invariant <i:idx> iff(dom(v.Triggered, br.Id), old(dom(v.Triggered, br.Id)) || nbp(v.Breakpoints, br.Line, i) > 0)

func teal.(*Vm).SetBreakpoints(v, lns) (r)
  props C13
  requires v != nil && v.Process != nil && listOK(listing(v))
  ensures verified: r != nil && all(ln, int, iff(dom(r, ln) && r[ln], bpLine(v, ln) && exists(k, 0, len(lns), lns[k] == ln)))
  ensures replaced: all(ln, int, iff(exists(k, 0, len(v.Breakpoints), v.Breakpoints[k].Line == ln), bpLine(v, ln) && exists(k, 0, len(lns), lns[k] == ln)))
  ensures once: distinctBp(v.Breakpoints)
  modifies v.Breakpoints
  flags terminates
  invariant <i:idx, m:map[int]bool> all(ln, int, iff(dom(m, ln) && m[ln], bpLine(v, ln) && exists(k, 0, i, lns[k] == ln)))
  invariant <i:idx, m:map[int]bool, s:![]VmBreakpoint> all(ln, int, iff(exists(k, 0, len(s), s[k].Line == ln), dom(m, ln) && m[ln]))
  invariant <s:![]VmBreakpoint> distinctBp(s)
def bpLine(v, ln) = 0 <= ln && ln < len(listing(v)) && !isNop(listing(v)[ln])

# C12: a fork copies everything the branch owns
def sameStack(x, y) = len(x.Items) == len(y.Items) && forall(k, 0, len(y.Items), x.Items[k] == y.Items[k])
def fkId(n, b) = n != nil && fresh(n) && ref(n) < alloc() && n != b && n.vm == b.vm && n.Budget == b.Budget
def fkStack(n, b) = n.Stack != nil && fresh(n.Stack) && ref(n.Stack) < alloc() && base(n.Stack.Items) < alloc() && (fresh(n.Stack.Items) || base(n.Stack.Items) == 0) && sameStack(n.Stack, b.Stack)
def fkFrames(n, b) = base(n.Frames) < alloc() && (fresh(n.Frames) || base(n.Frames) == 0) && len(n.Frames) == len(b.Frames) && forall(k, 0, len(b.Frames), n.Frames[k] == b.Frames[k])
def fkTrace(n, b) = base(n.Trace) < alloc() && (fresh(n.Trace) || base(n.Trace) == 0) && len(n.Trace) == len(b.Trace) && forall(k, 0, len(b.Trace), n.Trace[k] == b.Trace[k])
def fkLine(n, b, tgt) = settled(listing(b.vm), symLine(b.vm, tgt), n.Line)
def forked(n, b, tgt) = fkId(n, b) && fkStack(n, b) && fkFrames(n, b) && fkTrace(n, b) && fkLine(n, b, tgt)

func teal.(*VmBranch).fork(b, target)
  props C11 C12 C13
  requires VS(b) && vmBase(b.vm) && listOK(listing(b.vm))
  ensures one: len(b.vm.Branches) == old(len(b.vm.Branches)) + 1 && forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  ensures copy: forked(b.vm.Branches[old(len(b.vm.Branches))], b, target)
  ensures apart: brSep(b.vm.Branches[old(len(b.vm.Branches))], b)
  ensures id: b.vm.Branches[old(len(b.vm.Branches))].Id == old(b.vm.Id) && b.vm.Id == old(b.vm.Id) + 1
  ensures store: base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches)
  ensures frames: imp(old(frOK(b)), frOK(b.vm.Branches[old(len(b.vm.Branches))]))
  ensures size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  ensures costs: imp(old(costKept(b.vm)), costKept(b.vm))
  ensures none: iff(dom(b.vm.Triggered, old(b.vm.Id)), old(dom(b.vm.Triggered, b.vm.Id)) || atBp(b.vm, b.vm.Branches[old(len(b.vm.Branches))].Line))
  ensures arrival: len(b.vm.Triggered[old(b.vm.Id)]) == old(len(b.vm.Triggered[b.vm.Id])) + nbp(b.vm.Breakpoints, b.vm.Branches[old(len(b.vm.Branches))].Line, len(b.vm.Breakpoints))
  ensures others: all(i, int, imp(i != old(b.vm.Id), iff(dom(b.vm.Triggered, i), old(dom(b.vm.Triggered, i))) && b.vm.Triggered[i] == old(b.vm.Triggered[i])))
  modifies b.vm.Id, b.vm.Branches, elems(b.vm.Branches), mapof(b.vm.Triggered), anyelems(int), new(VmBranch), new(vmStack), newelems(VmValue), newelems(VmFrame), newelems(Op), newelems(*VmBranch)
