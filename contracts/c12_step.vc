# C12/C13: stepping
def opRefs(e) = imp(is(e, *BExpr), as(e, *BExpr).Label != nil) && imp(is(e, *BzExpr), as(e, *BzExpr).Label != nil) && imp(is(e, *BnzExpr), as(e, *BnzExpr).Label != nil) && imp(is(e, *CallSubExpr), as(e, *CallSubExpr).Label != nil) && imp(is(e, *SwitchExpr), forall(k, 0, len(as(e, *SwitchExpr).Targets), as(e, *SwitchExpr).Targets[k] != nil)) && imp(is(e, *MatchExpr), forall(k, 0, len(as(e, *MatchExpr).Targets), as(e, *MatchExpr).Targets[k] != nil))
# call frames: they return to an instruction of the program
def frOK(b) = forall(k, 0, len(b.Frames), 0 <= b.Frames[k].p && 0 <= b.Frames[k].Return && b.Frames[k].Return < len(listing(b.vm)) && imp(!b.Frames[k].prepared, b.Frames[k].NumReturns == 0))
def newFr(b) = forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), frOK(b.vm.Branches[j]))
def ownF(b) = base(b.Frames) == old(base(b.Frames)) || fresh(b.Frames) || base(b.Frames) == 0
def known(b) = ref(b) < alloc() && ref(b.Stack) < alloc() && base(b.Stack.Items) < alloc() && base(b.Frames) < alloc() && base(b.Trace) < alloc()
def brSep(x, y) = x != y && x.Stack != y.Stack && apart(x.Stack.Items, y.Stack.Items) && apart(x.Frames, y.Frames) && apart(x.Trace, y.Trace)
def nbr(b) = len(b.vm.Branches)
# a new branch: its own storage, the parent's budget
def newBr(n, b) = n != nil && fresh(n) && n.vm == b.vm && n.Budget == b.Budget && n.Stack != nil && fresh(n.Stack) && (base(n.Stack.Items) == 0 || fresh(n.Stack.Items)) && (base(n.Frames) == 0 || fresh(n.Frames)) && (base(n.Trace) == 0 || fresh(n.Trace)) && known(n) && n.Line >= -1

# a new branch does not start on a line that is no instruction
def newAt(v, ln) = ln == -1 || ln >= len(listing(v)) || !isNop(listing(v)[ln])

iface teal.vmOp.Execute(e, b) (r)
  props C12 C13
  flags refine
  requires idsOK(b.vm) && trigDom(b.vm) && mapE(b.vm.Triggered) && costKept(b.vm)
  requires opRefs(e) && vmReq(b) && 0 <= b.Line && b.Line < len(listing(b.vm)) && frOK(b) && known(b)
  ensures own: own(b) && ownF(b) && base(b.Stack.Items) < alloc() && base(b.Frames) < alloc()
  ensures frames: frOK(b)
  ensures line: b.Line >= -1
  ensures kept: nbr(b) >= old(nbr(b)) && forall(k, 0, old(nbr(b)), b.vm.Branches[k] == old(b.vm.Branches[k])) && (base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches))
  ensures new: forall(j, old(nbr(b)), nbr(b), newBr(b.vm.Branches[j], b))
  ensures newframes: newFr(b)
  ensures apart: newSep(b)
  ensures parent: newSepB(b)
  ensures ids: idsOK(b.vm)
  ensures costs: costKept(b.vm)
  ensures arrivals: newTrig(b)
  ensures newat: forall(j, old(nbr(b)), nbr(b), newAt(b.vm, b.vm.Branches[j].Line))
  ensures size: mapE(b.vm.Triggered)
  panics own: own(b) && ownF(b) && base(b.Stack.Items) < alloc() && base(b.Frames) < alloc()
  panics frames: frOK(b)
  panics line: b.Line >= -1
  panics ids: idsOK(b.vm)
  panics costs: costKept(b.vm)
  panics size: mapE(b.vm.Triggered)
  panics branches: b.vm.Branches == old(b.vm.Branches)
  panics kept: forall(k, 0, old(nbr(b)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  modifies b.Line, b.Name, b.Stack.Items, b.Frames, elems(b.Stack.Items), elems(b.Frames), b.vm.Scratch, b.vm.Id, b.vm.Branches, elems(b.vm.Branches), mapof(b.vm.Triggered), anyelems(int), new(VmBranch), new(vmStack), newelems(VmValue), newelems(VmFrame), newelems(Op), newelems(*VmBranch), newelems(vmSource)

# what an instruction costs: at most one price, never negative
def costReq(b) = VS(b) && b.vm != nil && b.vm.Process != nil && costTables()
def price(r) = len(r) <= 1 && forall(k, 0, len(r), r[k] >= 0)

iface teal.costlyOp.Cost(e, b) (r)
  props C12
  flags rtexit refine
  requires costReq(b)
  ensures price: price(r)
  panics stuck: true
  modifies newelems(int)

func teal.(*Base64DecodeExpr).Cost(e, b) (r)
  props C12
  flags rtexit
  requires e != nil && costReq(b)
  ensures price: price(r)
  panics stuck: len(b.Stack.Items) == 0
  modifies newelems(int)
  invariant <i:idx, s:![]int> len(s) == i
  invariant <s:[]int> forall(k, 0, len(s), s[k] >= 0)

func teal.(*JsonRefExpr).Cost(e, b) (r)
  props C12
  flags rtexit
  requires e != nil && costReq(b)
  ensures price: price(r)
  panics stuck: len(b.Stack.Items) == 0
  modifies newelems(int)
  invariant <i:idx, s:![]int> len(s) == i
  invariant <s:[]int> forall(k, 0, len(s), s[k] >= 0)

iface teal.lenValue.Lengths(e) (r)
  props C12
  ensures one: price(r)
  modifies newelems(int)

func teal.(VmValue).Lengths(v) (r)
  props C12
  ensures one: price(r)
  modifies newelems(int)

# ---- the whole machine
def brOK(b, v) = b != nil && b.vm == v && b.Stack != nil && b.Line >= -1 && b.Budget >= 0 && known(b) && apart(b.Trace, listing(v))
def allBr(v) = forall(k, 0, len(v.Branches), brOK(v.Branches[k], v))
def allFr(v) = forall(k, 0, len(v.Branches), frOK(v.Branches[k]))
def allSep(v) = forall(i, 0, len(v.Branches), forall(j, 0, len(v.Branches), imp(i != j, brSep(v.Branches[i], v.Branches[j]))))
def listRefs(v) = forall(k, 0, len(listing(v)), opRefs(listing(v)[k]))
def vmInv(v) = vmBase(v) && base(listing(v)) < alloc() && listOK(listing(v)) && listRefs(v) && costTables() && allBr(v) && allFr(v) && allSep(v) && v.Current >= 0 && idsOK(v) && bpOK(v)
def bpOK(v) = forall(k, 0, len(v.Breakpoints), 0 <= v.Breakpoints[k].Line && v.Breakpoints[k].Line < len(listing(v)))
# C13: recorded are exactly the branches that arrived on a breakpoint: a new
# branch at its target, the one that executed at its next instruction
def arrived(v, i) = i >= old(len(v.Branches)) || len(v.Branches[i].Trace) > old(len(v.Branches[i].Trace))
def trigAll(v) = all(i, int, iff(dom(v.Triggered, i), 0 <= i && i < len(v.Branches) && arrived(v, i) && atBp(v, v.Branches[i].Line)))
def atCur(v) = v.Branch == nil || (v.Current < len(v.Branches) && v.Branch == v.Branches[v.Current] && 0 <= v.Branch.Line && v.Branch.Line < len(listing(v)) && !isNop(listing(v)[v.Branch.Line]))
# a position moves over lines that are no instruction, and past the last one to the exit
def moved(L, a, b) = a == b || (a >= 0 && ((a <= b && forall(j, a, b, imp(j < len(L), isNop(L[j])))) || (b == -1 && forall(j, a, len(L), isNop(L[j])))))
def movedAll(v) = forall(k, 0, len(v.Branches), moved(listing(v), old(v.Branches[k].Line), v.Branches[k].Line))

func teal.(*Vm).skipNops(v)
  props C12 C13
  requires vmBase(v) && listOK(listing(v)) && v.Current >= 0
  requires allBr(v)
  requires allFr(v)
  requires allSep(v)
  ensures lines: forall(k, 0, len(v.Branches), v.Branches[k].Line >= -1)
  ensures cur: atCur(v) && v.Current >= 0
  ensures moved: movedAll(v)
  modifies v.Current, v.Branch, anyfield(VmBranch, Line), anyfield(VmBranch, Name)
  invariant v.Current >= 0
  invariant forall(k, 0, len(v.Branches), v.Branches[k].Line >= -1)
  invariant movedAll(v)

# what a branch that executed paid
def lastOp(b) = b.Trace[len(b.Trace)-1]
def ran(b) = len(b.Trace) == old(len(b.Trace)) + 1
def paid(b) = ite(ran(b), imp(!impl(lastOp(b), costlyOp), b.Budget == old(b.Budget) - 1), len(b.Trace) == old(len(b.Trace)) && b.Budget == old(b.Budget))
def sameStk(b) = b.Stack == old(b.Stack) && b.Stack.Items == old(b.Stack.Items) && forall(k, 0, len(b.Stack.Items), b.Stack.Items[k] == old(b.Stack.Items[k]))
def sameFr(b) = b.Frames == old(b.Frames) && forall(k, 0, len(b.Frames), b.Frames[k] == old(b.Frames[k]))
def sameTr(b) = b.Trace == old(b.Trace) && forall(k, 0, len(b.Trace), b.Trace[k] == old(b.Trace[k]))
def sameBr(v, b) = b.Budget == old(b.Budget) && moved(listing(v), old(b.Line), b.Line) && sameStk(b) && sameFr(b) && sameTr(b)

func teal.(*Vm).Step(v)
  props C12 C13
  requires vmInv(v)
  ensures base: vmBase(v) && listOK(listing(v)) && listRefs(v) && v.Current >= 0
  ensures ids: idsOK(v)
  ensures costs: costTables()
  ensures triggered: imp(v.Error == nil, trigAll(v))
  ensures size: mapE(v.Triggered)
  trust hits: nhits == old(nhits) + ite(len(v.Triggered) > 0, 1, 0)
  ensures store: base(listing(v)) < alloc()
  ensures branches: allBr(v)
  ensures frames: allFr(v)
  ensures apart: allSep(v)
  ensures kept: len(v.Branches) >= old(len(v.Branches)) && forall(k, 0, old(len(v.Branches)), v.Branches[k] == old(v.Branches[k]))
  ensures budget: forall(k, 0, old(len(v.Branches)), v.Branches[k].Budget <= old(v.Branches[k].Budget))
  ensures paid: forall(k, 0, old(len(v.Branches)), paid(v.Branches[k]))
  ensures others: forall(i, 0, old(len(v.Branches)), forall(j, 0, i, sameBr(v, v.Branches[i]) || sameBr(v, v.Branches[j])))
  modifies v.Error, v.Triggered, v.Current, v.Branch, anyfield(Vm, Id), anyfield(Vm, Branches), anyfield(Vm, Scratch), anyof(VmBranch), anyof(vmStack), anyelems(VmValue), anyelems(VmFrame), anyelems(Op), anyelems(*VmBranch), anyelems(int), anyelems(vmSource), anymap(map[int][]int), nhits
  invariant fresh(v.Triggered)
  invariant base(listing(v)) < alloc()
  invariant <i:idx> i >= 0
  invariant idsOK(v)
  invariant costKept(v)
  invariant mapE(v.Triggered)
  invariant v.Error == nil
  invariant <i:idx> imp(i == 0, all(k, int, !dom(v.Triggered, k)))
  invariant <i:idx> imp(i > 0, trigAll(v))
  invariant vmBase(v) && listOK(listing(v)) && listRefs(v) && v.Current >= 0
  invariant allBr(v)
  invariant allFr(v)
  invariant allSep(v)
  invariant len(v.Branches) >= old(len(v.Branches)) && forall(k, 0, old(len(v.Branches)), v.Branches[k] == old(v.Branches[k]))
  invariant forall(k, 0, old(len(v.Branches)), v.Branches[k].Budget <= old(v.Branches[k].Budget))
  invariant forall(k, 0, old(len(v.Branches)), paid(v.Branches[k]))
  invariant forall(i, 0, old(len(v.Branches)), forall(j, 0, i, sameBr(v, v.Branches[i]) || sameBr(v, v.Branches[j])))
  invariant <i:idx> imp(i == 0, forall(k, 0, len(v.Branches), sameBr(v, v.Branches[k])) && v.Branches == old(v.Branches))
  invariant <i:idx> imp(i == 0, atCur(v) && v.Branch != nil)
  invariant <i:idx, b:*VmBranch> imp(i == 0, v.Branch == b)
  invariant <i:idx, s:[]int> len(s) <= 1 && imp(i == 0, forall(k, 0, len(s), s[k] >= 0))
  invariant <b:*VmBranch> b != nil
  invariant <i:idx, s:[]int, o:Op> imp(i == 0 && !impl(o, costlyOp), len(s) == 1 && s[0] == 1)
  flags lean

# C13: running stops at the first step that arrives on a breakpoint
ghost nhits int

func teal.(*Vm).Run(v)
  props C13
  requires vmInv(v)
  ensures base: vmBase(v) && v.Current >= 0
  ensures stop: v.Branch == nil || v.Error != nil || (len(v.Triggered) > 0 && nhits == old(nhits) + 1)
  ensures first: nhits <= old(nhits) + 1 && imp(nhits == old(nhits) + 1, len(v.Triggered) > 0)
  flags partial lean
  invariant vmBase(v)
  invariant base(listing(v)) < alloc() && listOK(listing(v)) && listRefs(v) && v.Current >= 0
  invariant costTables()
  invariant allBr(v)
  invariant allFr(v)
  invariant allSep(v)
  invariant idsOK(v)
  invariant bpOK(v)
  invariant nhits == old(nhits)
  modifies v.Error, v.Triggered, v.Current, v.Branch, anyfield(Vm, Id), anyfield(Vm, Branches), anyfield(Vm, Scratch), anyof(VmBranch), anyof(vmStack), anyelems(VmValue), anyelems(VmFrame), anyelems(Op), anyelems(*VmBranch), anyelems(int), anyelems(vmSource), anymap(map[int][]int), nhits

# a new machine: one branch, before the first instruction, with the whole budget
func teal.NewVm(res) (v)
  props C11 C12 C13
  requires res != nil && base(res.Listing) < alloc() && listOK(res.Listing) && forall(k, 0, len(res.Listing), opRefs(res.Listing[k])) && costTables()
  ensures base: vmBase(v) && fresh(v) && base(listing(v)) < alloc() && listOK(listing(v)) && listRefs(v) && costTables() && v.Current >= 0 && v.Process == res
  ensures branches: allBr(v)
  ensures frames: allFr(v)
  ensures apart: allSep(v)
  ensures ids: idsOK(v)
  ensures bps: bpOK(v) && len(v.Breakpoints) == 0
  ensures one: len(v.Branches) == 1 && v.Branches[0].Budget == 700 && len(v.Branches[0].Stack.Items) == 0 && len(v.Branches[0].Trace) == 0 && len(v.Branches[0].Frames) == 0
  ensures start: moved(listing(v), 0, v.Branches[0].Line)
  ensures cur: atCur(v)
  ensures labels: all(n, string, iff(dom(v.syms, n), exists(k, 0, len(listing(v)), is(listing(v)[k], *LabelExpr) && as(listing(v)[k], *LabelExpr).Name == n)))
  ensures label: all(n, string, imp(dom(v.syms, n), is(listing(v)[v.syms[n]], *LabelExpr) && as(listing(v)[v.syms[n]], *LabelExpr).Name == n))
  invariant <i:idx, m:map[string]int> m != nil && all(n, string, imp(dom(m, n), 0 <= m[n] && m[n] < i))
  invariant <i:idx, m:map[string]int> all(n, string, imp(dom(m, n), is(res.Listing[m[n]], *LabelExpr) && as(res.Listing[m[n]], *LabelExpr).Name == n))
  invariant <i:idx, m:map[string]int> all(n, string, iff(dom(m, n), exists(k, 0, i, is(res.Listing[k], *LabelExpr) && as(res.Listing[k], *LabelExpr).Name == n)))

func teal.(*Vm).Switch(v, id)
  props C12 C13
  requires v != nil && forall(k, 0, len(v.Branches), v.Branches[k] != nil) && v.Current >= 0
  ensures found: imp(idsOK(v) && 0 <= id && id < len(v.Branches), v.Current == id && v.Branch == v.Branches[id])
  ensures none: imp(forall(k, 0, len(v.Branches), v.Branches[k].Id != id), v.Current == old(v.Current) && v.Branch == old(v.Branch))
  ensures any: (v.Current == old(v.Current) && v.Branch == old(v.Branch)) || (0 <= v.Current && v.Current < len(v.Branches) && v.Branch == v.Branches[v.Current] && v.Branch.Id == id)
  flags terminates
  modifies v.Current, v.Branch
  invariant <i:idx> forall(k, 0, i, v.Branches[k].Id != id)
