# C11: opcodes whose effect depends on immediates, control flow and frames
def N(b) = len(b.Stack.Items)
def kept(b, n) = forall(k, 0, n, b.Stack.Items[k] == old(b.Stack.Items[k]))
def nb(b, k) = b.vm.Branches[old(len(b.vm.Branches))+k]
def vmReq(b) = VS(b) && vmBase(b.vm) && listOK(listing(b.vm))
def newSepB(b) = forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), brSep(b.vm.Branches[j], b))
def newSep(b) = forall(i, old(len(b.vm.Branches)), len(b.vm.Branches), forall(j, old(len(b.vm.Branches)), i, brSep(b.vm.Branches[i], b.vm.Branches[j])))

func teal.(*ErrExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures out: b.Line == -1
  modifies b.Line, b.Name

func teal.(*ReturnExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures operands: old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1])) && N(b) == old(N(b)) - 1 && own(b)
  ensures out: b.Line == -1
  panics stuck: !old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1]))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Name, b.Stack.Items

func teal.(*BExpr).Execute(e, b) (r)
  props C11
  requires e != nil && e.Label != nil && vmReq(b)
  ensures line: b.Line == symLine(b.vm, e.Label.Name)
  modifies b.Line

func teal.(*BnzExpr).Execute(e, b) (r)
  props C11 C12 C13
  requires e != nil && e.Label != nil && vmReq(b)
  ensures operands: old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1])) && N(b) == old(N(b)) - 1 && kept(b, N(b)) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  ensures fork: len(b.vm.Branches) == old(len(b.vm.Branches)) + 1 && forked(b.vm.Branches[old(len(b.vm.Branches))], b, e.Label.Name)
  ensures parent: newSepB(b)
  ensures newframes: imp(old(frOK(b)), newFr(b))
  ensures ids: imp(old(idsOK(b.vm)), idsOK(b.vm))
  ensures arrivals: imp(old(idsOK(b.vm) && trigDom(b.vm)), newTrig(b))
  ensures size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  ensures costs: imp(old(costKept(b.vm)), costKept(b.vm))
  ensures prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k])) && (base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches))
  panics stuck: !old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1]))
  panics kept: stay(b) && own(b) && b.vm.Branches == old(b.vm.Branches)
  panics ids: b.vm.Id == old(b.vm.Id)
  panics size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  panics costs: imp(old(costKept(b.vm)), costKept(b.vm))
  panics prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  modifies b.Line, b.Stack.Items, b.vm.Id, b.vm.Branches, elems(b.vm.Branches), mapof(b.vm.Triggered), anyelems(int), new(VmBranch), new(vmStack), newelems(VmValue), newelems(VmFrame), newelems(Op), newelems(*VmBranch)

func teal.(*BzExpr).Execute(e, b) (r)
  props C11 C12 C13
  requires e != nil && e.Label != nil && vmReq(b)
  ensures operands: old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1])) && N(b) == old(N(b)) - 1 && kept(b, N(b)) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  ensures fork: len(b.vm.Branches) == old(len(b.vm.Branches)) + 1 && forked(b.vm.Branches[old(len(b.vm.Branches))], b, e.Label.Name)
  ensures parent: newSepB(b)
  ensures newframes: imp(old(frOK(b)), newFr(b))
  ensures ids: imp(old(idsOK(b.vm)), idsOK(b.vm))
  ensures arrivals: imp(old(idsOK(b.vm) && trigDom(b.vm)), newTrig(b))
  ensures size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  ensures costs: imp(old(costKept(b.vm)), costKept(b.vm))
  ensures prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k])) && (base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches))
  panics stuck: !old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1]))
  panics kept: stay(b) && own(b) && b.vm.Branches == old(b.vm.Branches)
  panics ids: b.vm.Id == old(b.vm.Id)
  panics size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  panics costs: imp(old(costKept(b.vm)), costKept(b.vm))
  panics prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  modifies b.Line, b.Stack.Items, b.vm.Id, b.vm.Branches, elems(b.vm.Branches), mapof(b.vm.Triggered), anyelems(int), new(VmBranch), new(vmStack), newelems(VmValue), newelems(VmFrame), newelems(Op), newelems(*VmBranch)

func teal.(*SwitchExpr).Execute(e, b) (r)
  props C11 C12 C13
  requires e != nil && vmReq(b) && forall(k, 0, len(e.Targets), e.Targets[k] != nil)
  ensures operands: old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1])) && N(b) == old(N(b)) - 1 && kept(b, N(b)) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  ensures forks: len(b.vm.Branches) == old(len(b.vm.Branches)) + len(e.Targets)
  ensures forkid: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkId(b.vm.Branches[j], b))
  ensures forkstack: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkStack(b.vm.Branches[j], b))
  ensures forkframes: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkFrames(b.vm.Branches[j], b))
  ensures forktrace: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkTrace(b.vm.Branches[j], b))
  ensures forkline: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkLine(b.vm.Branches[j], b, e.Targets[j-old(len(b.vm.Branches))].Name))
  ensures parent: newSepB(b)
  ensures ids: imp(old(idsOK(b.vm)), idsOK(b.vm))
  ensures arrivals: imp(old(idsOK(b.vm) && trigDom(b.vm)), newTrig(b))
  ensures size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  ensures costs: imp(old(costKept(b.vm)), costKept(b.vm))
  ensures prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k])) && (base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches))
  ensures apart: newSep(b)
  ensures newframes: imp(old(frOK(b)), newFr(b))
  panics stuck: !old(N(b) >= 1 && tyOK(2, b.Stack.Items[N(b)-1]))
  panics kept: stay(b) && own(b) && b.vm.Branches == old(b.vm.Branches)
  panics ids: b.vm.Id == old(b.vm.Id)
  panics size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  panics costs: imp(old(costKept(b.vm)), costKept(b.vm))
  panics prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  modifies b.Line, b.Stack.Items, b.vm.Id, b.vm.Branches, elems(b.vm.Branches), mapof(b.vm.Triggered), anyelems(int), new(VmBranch), new(vmStack), newelems(VmValue), newelems(VmFrame), newelems(Op), newelems(*VmBranch)
  invariant <i:idx> len(b.vm.Branches) == old(len(b.vm.Branches)) + i
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkId(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkStack(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkFrames(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkTrace(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkLine(b.vm.Branches[j], b, e.Targets[j-old(len(b.vm.Branches))].Name))
  invariant newSepB(b)
  invariant imp(old(idsOK(b.vm)), idsOK(b.vm))
  invariant imp(old(idsOK(b.vm) && trigDom(b.vm)), newTrig(b))
  invariant imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  invariant imp(old(costKept(b.vm)), costKept(b.vm))
  invariant newSep(b)
  invariant imp(old(frOK(b)), newFr(b))
  invariant forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  invariant base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches)

func teal.(*MatchExpr).Execute(e, b) (r)
  props C11 C12 C13
  requires e != nil && vmReq(b) && forall(k, 0, len(e.Targets), e.Targets[k] != nil)
  ensures operands: old(N(b)) >= len(e.Targets) + 1 && N(b) == old(N(b)) - len(e.Targets) - 1 && kept(b, N(b)) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  ensures forks: len(b.vm.Branches) == old(len(b.vm.Branches)) + len(e.Targets)
  ensures forkid: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkId(b.vm.Branches[j], b))
  ensures forkstack: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkStack(b.vm.Branches[j], b))
  ensures forkframes: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkFrames(b.vm.Branches[j], b))
  ensures forktrace: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkTrace(b.vm.Branches[j], b))
  ensures forkline: forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkLine(b.vm.Branches[j], b, e.Targets[j-old(len(b.vm.Branches))].Name))
  ensures parent: newSepB(b)
  ensures ids: imp(old(idsOK(b.vm)), idsOK(b.vm))
  ensures arrivals: imp(old(idsOK(b.vm) && trigDom(b.vm)), newTrig(b))
  ensures size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  ensures costs: imp(old(costKept(b.vm)), costKept(b.vm))
  ensures prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k])) && (base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches))
  ensures apart: newSep(b)
  ensures newframes: imp(old(frOK(b)), newFr(b))
  panics stuck: !(old(N(b)) >= len(e.Targets) + 1)
  panics kept: stay(b) && own(b) && b.vm.Branches == old(b.vm.Branches)
  panics ids: b.vm.Id == old(b.vm.Id)
  panics size: imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  panics costs: imp(old(costKept(b.vm)), costKept(b.vm))
  panics prefix: forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  modifies b.Line, b.Stack.Items, b.vm.Id, b.vm.Branches, elems(b.vm.Branches), mapof(b.vm.Triggered), anyelems(int), new(VmBranch), new(vmStack), newelems(VmValue), newelems(VmFrame), newelems(Op), newelems(*VmBranch)
  invariant <i:idx> N(b) == old(N(b)) - i && base(b.Stack.Items) == old(base(b.Stack.Items)) && off(b.Stack.Items) == old(off(b.Stack.Items))
  invariant <i:idx> len(b.vm.Branches) == old(len(b.vm.Branches)) + i
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkId(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkStack(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkFrames(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkTrace(b.vm.Branches[j], b))
  invariant forall(j, old(len(b.vm.Branches)), len(b.vm.Branches), fkLine(b.vm.Branches[j], b, e.Targets[j-old(len(b.vm.Branches))].Name))
  invariant newSepB(b)
  invariant imp(old(idsOK(b.vm)), idsOK(b.vm))
  invariant imp(old(idsOK(b.vm) && trigDom(b.vm)), newTrig(b))
  invariant imp(old(mapE(b.vm.Triggered)), mapE(b.vm.Triggered))
  invariant imp(old(costKept(b.vm)), costKept(b.vm))
  invariant newSep(b)
  invariant imp(old(frOK(b)), newFr(b))
  invariant forall(k, 0, old(len(b.vm.Branches)), b.vm.Branches[k] == old(b.vm.Branches[k]))
  invariant base(b.vm.Branches) == old(base(b.vm.Branches)) || fresh(b.vm.Branches)
  invariant N(b) == old(N(b)) - len(e.Targets) - 1

func teal.(*CallSubExpr).Execute(e, b) (r)
  props C11
  requires e != nil && e.Label != nil && vmReq(b)
  ensures line: b.Line == symLine(b.vm, e.Label.Name)
  ensures frame: len(b.Frames) == old(len(b.Frames)) + 1 && b.Frames[old(len(b.Frames))].Return == old(b.Line) && b.Frames[old(len(b.Frames))].p == N(b) && !b.Frames[old(len(b.Frames))].prepared && b.Frames[old(len(b.Frames))].NumReturns == 0
  ensures others: forall(k, 0, old(len(b.Frames)), b.Frames[k] == old(b.Frames[k]))
  ensures store: base(b.Frames) == old(base(b.Frames)) || fresh(b.Frames)
  modifies b.Line, b.Frames, elems(b.Frames), newelems(VmFrame)

func teal.(*ProtoExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures frame: len(b.Frames) > 0 && b.Frames == old(b.Frames) && b.Frames[len(b.Frames)-1].NumArgs == e.Args && b.Frames[len(b.Frames)-1].NumReturns == e.Results && b.Frames[len(b.Frames)-1].prepared && b.Frames[len(b.Frames)-1].p == old(b.Frames[len(b.Frames)-1].p) && b.Frames[len(b.Frames)-1].Return == old(b.Frames[len(b.Frames)-1].Return)
  ensures next: b.Line == old(b.Line) + 1
  ensures others: forall(k, 0, len(b.Frames)-1, b.Frames[k] == old(b.Frames[k]))
  panics none: len(b.Frames) == 0
  panics kept: stay(b) && own(b)
  modifies b.Line, elems(b.Frames)

# the results are moved down over the arguments and everything above them
def topF(b) = b.Frames[len(b.Frames)-1]
func teal.(*RetSubExpr).Execute(e, b) (r)
  props C11
  flags rtexit
  requires e != nil && VS(b) && imp(len(b.Frames) > 0, 0 <= topF(b).p && topF(b).Return >= 0 && imp(!topF(b).prepared, topF(b).NumReturns == 0))
  ensures ret: imp(old(len(b.Frames)) > 0, b.Line == old(topF(b).Return) + 1 && len(b.Frames) == old(len(b.Frames)) - 1 && base(b.Frames) == old(base(b.Frames)) && off(b.Frames) == old(off(b.Frames)))
  ensures top: imp(old(len(b.Frames)) == 0, b.Line == old(b.Line) + 1 && b.Frames == old(b.Frames))
  ensures plain: imp(old(len(b.Frames) > 0 && !topF(b).prepared), N(b) == old(N(b)) && kept(b, N(b)))
  ensures height: imp(old(len(b.Frames) > 0 && topF(b).prepared), N(b) == old(topF(b).p - topF(b).NumArgs + topF(b).NumReturns) && old(N(b) - topF(b).NumReturns >= topF(b).p))
  ensures caller: imp(old(len(b.Frames) > 0 && topF(b).prepared), kept(b, old(topF(b).p - topF(b).NumArgs)))
  ensures results: imp(old(len(b.Frames) > 0 && topF(b).prepared), forall(k, 0, old(topF(b).NumReturns), b.Stack.Items[old(topF(b).p - topF(b).NumArgs)+k] == old(b.Stack.Items[N(b) - topF(b).NumReturns + k])))
  ensures store: own(b)
  panics stuck: old(len(b.Frames) > 0 && (N(b) < topF(b).NumReturns || (topF(b).prepared && (N(b) - topF(b).NumReturns < topF(b).p || topF(b).p < topF(b).NumArgs))))
  panics kept: stay(b) && own(b) && b.Frames == old(b.Frames)
  modifies b.Line, b.Name, b.Frames, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)
  invariant <i:!uint8, s:![]VmValue> len(s) == i && N(b) == old(N(b)) - i && i <= old(topF(b).NumReturns)
  invariant <s:[]VmValue> forall(k, 0, len(s), s[k] == old(b.Stack.Items[N(b)-1-k]))
  invariant <s:[]VmValue> base(s) != base(b.Stack.Items) && fresh(s)
  invariant base(b.Stack.Items) == old(base(b.Stack.Items)) && off(b.Stack.Items) == old(off(b.Stack.Items))
  invariant own(b)
  invariant <i:!int, s:[]VmValue> len(s) == old(topF(b).NumReturns) && -1 <= i && i < len(s) && N(b) == old(ite(topF(b).prepared, topF(b).p - topF(b).NumArgs, N(b))) + len(s) - 1 - i
  invariant kept(b, old(ite(topF(b).prepared, topF(b).p - topF(b).NumArgs, N(b))))
  invariant <i:!int, s:[]VmValue> forall(k, 0, len(s)-1-i, b.Stack.Items[old(ite(topF(b).prepared, topF(b).p - topF(b).NumArgs, N(b)))+k] == s[len(s)-1-k])

func teal.(*DupExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: old(N(b)) >= 1 && N(b) == old(N(b)) + 1 && kept(b, old(N(b))) && b.Stack.Items[old(N(b))] == old(b.Stack.Items[N(b)-1]) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) < 1
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*Dup2Expr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: old(N(b)) >= 2 && N(b) == old(N(b)) + 2 && kept(b, old(N(b))) && b.Stack.Items[old(N(b))] == old(b.Stack.Items[N(b)-2]) && b.Stack.Items[old(N(b))+1] == old(b.Stack.Items[N(b)-1]) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) < 2
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*SwapExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: old(N(b)) >= 2 && N(b) == old(N(b)) && kept(b, N(b)-2) && b.Stack.Items[N(b)-1] == old(b.Stack.Items[N(b)-2]) && b.Stack.Items[N(b)-2] == old(b.Stack.Items[N(b)-1]) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) < 2
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*PopNExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: old(N(b)) >= e.Depth && N(b) == old(N(b)) - e.Depth && kept(b, N(b)) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) < e.Depth
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items
  invariant <i:!uint8> N(b) == old(N(b)) - i && i <= e.Depth && base(b.Stack.Items) == old(base(b.Stack.Items)) && off(b.Stack.Items) == old(off(b.Stack.Items))
  invariant <i:!int> N(b) == old(N(b)) - i && i <= e.Depth && base(b.Stack.Items) == old(base(b.Stack.Items)) && off(b.Stack.Items) == old(off(b.Stack.Items))

func teal.(*DupNExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: old(N(b)) >= 1 && N(b) == old(N(b)) + e.Count && kept(b, old(N(b))-1) && forall(k, old(N(b))-1, N(b), b.Stack.Items[k] == old(b.Stack.Items[N(b)-1])) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) < 1
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)
  invariant <i:!int> 0 <= i && i <= e.Count + 1 && N(b) == old(N(b)) - 1 + i
  invariant kept(b, old(N(b))-1) && own(b)
  invariant forall(k, old(N(b))-1, N(b), b.Stack.Items[k] == old(b.Stack.Items[N(b)-1]))

func teal.(*DigExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: old(N(b)) > e.Index && N(b) == old(N(b)) + 1 && kept(b, old(N(b))) && b.Stack.Items[old(N(b))] == old(b.Stack.Items[N(b)-1-e.Index]) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) <= e.Index
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*BuryExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: old(N(b)) > e.Depth && e.Depth > 0 && N(b) == old(N(b)) - 1 && b.Stack.Items[old(N(b))-1-e.Depth] == old(b.Stack.Items[N(b)-1]) && own(b)
  ensures others: forall(k, 0, N(b), imp(k != old(N(b))-1-e.Depth, b.Stack.Items[k] == old(b.Stack.Items[k])))
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) <= e.Depth || e.Depth == 0
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*FrameDigExpr).Execute(e, b) (r)
  props C11
  flags rtexit
  requires e != nil && VS(b) && forall(k, 0, len(b.Frames), 0 <= b.Frames[k].p)
  ensures effect: len(b.Frames) > 0 && 0 <= topF(b).p + e.Index && topF(b).p + e.Index < old(N(b)) && N(b) == old(N(b)) + 1 && kept(b, old(N(b))) && b.Stack.Items[old(N(b))] == old(b.Stack.Items[topF(b).p + e.Index]) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: len(b.Frames) == 0 || !(0 <= topF(b).p + e.Index && topF(b).p + e.Index < old(N(b)))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*FrameBuryExpr).Execute(e, b) (r)
  props C11
  flags rtexit
  requires e != nil && VS(b) && forall(k, 0, len(b.Frames), 0 <= b.Frames[k].p)
  ensures effect: len(b.Frames) > 0 && old(N(b)) >= 1 && 0 <= topF(b).p + e.Index && topF(b).p + e.Index < N(b) && N(b) == old(N(b)) - 1 && b.Stack.Items[topF(b).p + e.Index] == old(b.Stack.Items[N(b)-1]) && own(b)
  ensures others: forall(k, 0, N(b), imp(k != topF(b).p + e.Index, b.Stack.Items[k] == old(b.Stack.Items[k])))
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: len(b.Frames) == 0 || old(N(b)) == 0 || !(0 <= topF(b).p + e.Index && topF(b).p + e.Index < old(N(b)) - 1)
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)

func teal.(*CoverExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: old(N(b)) > e.Depth && N(b) == old(N(b)) && kept(b, N(b)-1-e.Depth) && own(b)
  ensures moved: b.Stack.Items[N(b)-1-e.Depth] == old(b.Stack.Items[N(b)-1])
  ensures shifted: forall(k, N(b)-e.Depth, N(b), b.Stack.Items[k] == old(b.Stack.Items[k-1]))
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) <= e.Depth
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)
  invariant <i:!uint8, s:![]VmValue> len(s) == i && i <= e.Depth && N(b) == old(N(b)) - 1 - i
  invariant <s:[]VmValue> forall(k, 0, len(s), s[k] == old(b.Stack.Items[N(b)-2-k]))
  invariant <s:[]VmValue> base(s) != base(b.Stack.Items) && fresh(s)
  invariant base(b.Stack.Items) == old(base(b.Stack.Items)) && off(b.Stack.Items) == old(off(b.Stack.Items))
  invariant own(b) && kept(b, old(N(b))-1-e.Depth)
  invariant b.Stack.Items[old(N(b))-1-e.Depth] == old(b.Stack.Items[N(b)-1])
  invariant <i:!int, s:[]VmValue> len(s) == e.Depth && -1 <= i && i < len(s) && N(b) == old(N(b)) - 1 - i
  invariant forall(k, old(N(b))-e.Depth, N(b), b.Stack.Items[k] == old(b.Stack.Items[k-1]))

func teal.(*UncoverExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures height: old(N(b)) > e.Depth && N(b) == old(N(b)) && kept(b, N(b)-1-e.Depth) && own(b)
  ensures moved: b.Stack.Items[N(b)-1] == old(b.Stack.Items[N(b)-1-e.Depth])
  ensures shifted: forall(k, N(b)-1-e.Depth, N(b)-1, b.Stack.Items[k] == old(b.Stack.Items[k+1]))
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) <= e.Depth
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)
  invariant <i:!uint8, s:![]VmValue> len(s) == i && i <= e.Depth && N(b) == old(N(b)) - i
  invariant <s:[]VmValue> forall(k, 0, len(s), s[k] == old(b.Stack.Items[N(b)-1-k]))
  invariant <s:[]VmValue> base(s) != base(b.Stack.Items) && fresh(s)
  invariant base(b.Stack.Items) == old(base(b.Stack.Items)) && off(b.Stack.Items) == old(off(b.Stack.Items))
  invariant own(b) && kept(b, old(N(b))-1-e.Depth)
  invariant <i:!int, s:[]VmValue> len(s) == e.Depth && -1 <= i && i < len(s) && N(b) == old(N(b)) - 2 - i
  invariant forall(k, old(N(b))-1-e.Depth, N(b), b.Stack.Items[k] == old(b.Stack.Items[k+1]))

func teal.(*PushIntsExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: N(b) == old(N(b)) + len(e.Ints) && kept(b, old(N(b))) && forall(k, old(N(b)), N(b), b.Stack.Items[k].T == 2) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)
  invariant <i:idx> N(b) == old(N(b)) + i
  invariant kept(b, old(N(b))) && own(b) && forall(k, old(N(b)), N(b), b.Stack.Items[k].T == 2)

func teal.(*PushBytessExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b)
  ensures effect: N(b) == old(N(b)) + len(e.Bytess) && kept(b, old(N(b))) && forall(k, old(N(b)), N(b), b.Stack.Items[k].T == 3) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  modifies b.Line, b.Stack.Items, elems(b.Stack.Items), newelems(VmValue)
  invariant <i:idx> N(b) == old(N(b)) + i
  invariant kept(b, old(N(b))) && own(b) && forall(k, old(N(b)), N(b), b.Stack.Items[k].T == 3)

func teal.(*StoreExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b) && b.vm != nil
  ensures effect: old(N(b)) >= 1 && N(b) == old(N(b)) - 1 && kept(b, N(b)) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(N(b)) < 1
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, b.vm.Scratch

func teal.(*StoresExpr).Execute(e, b) (r)
  props C11
  requires e != nil && VS(b) && b.vm != nil
  ensures effect: old(N(b) >= 2 && tyOK(2, b.Stack.Items[N(b)-2])) && N(b) == old(N(b)) - 2 && kept(b, N(b)) && own(b)
  ensures next: b.Line == old(b.Line) + 1
  panics stuck: old(!(N(b) >= 2 && tyOK(2, b.Stack.Items[N(b)-2])) || (is(b.Stack.Items[N(b)-2].src, vmUint64Const) && as(b.Stack.Items[N(b)-2].src, vmUint64Const).v >= 256))
  panics kept: stay(b) && own(b)
  modifies b.Line, b.Stack.Items, b.vm.Scratch
