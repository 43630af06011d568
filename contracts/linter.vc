# Labels an instruction refers to
def one(op) = is(op, *BExpr) || is(op, *BzExpr) || is(op, *BnzExpr) || is(op, *CallSubExpr)
def nlab(op) = ite(one(op), 1, ite(is(op, *SwitchExpr), len(as(op, *SwitchExpr).Targets), ite(is(op, *MatchExpr), len(as(op, *MatchExpr).Targets), 0)))
def labk(op, k) = ite(is(op, *BExpr), as(op, *BExpr).Label, ite(is(op, *BzExpr), as(op, *BzExpr).Label, ite(is(op, *BnzExpr), as(op, *BnzExpr).Label, ite(is(op, *CallSubExpr), as(op, *CallSubExpr).Label, ite(is(op, *SwitchExpr), as(op, *SwitchExpr).Targets[k], as(op, *MatchExpr).Targets[k])))))
# an instruction of a listing: present, and every label reference present
def ptrOK(op) = imp(is(op, *LabelExpr), as(op, *LabelExpr) != nil) && imp(is(op, *BExpr), as(op, *BExpr) != nil && as(op, *BExpr).Label != nil) && imp(is(op, *BzExpr), as(op, *BzExpr) != nil && as(op, *BzExpr).Label != nil) && imp(is(op, *BnzExpr), as(op, *BnzExpr) != nil && as(op, *BnzExpr).Label != nil) && imp(is(op, *CallSubExpr), as(op, *CallSubExpr) != nil && as(op, *CallSubExpr).Label != nil) && imp(is(op, *SwitchExpr), as(op, *SwitchExpr) != nil) && imp(is(op, *MatchExpr), as(op, *MatchExpr) != nil) && imp(is(op, *PragmaExpr), as(op, *PragmaExpr) != nil)
def wfop(op) = op != nil && ptrOK(op) && imp(is(op, *SwitchExpr), forall(k, 0, len(as(op, *SwitchExpr).Targets), as(op, *SwitchExpr).Targets[k] != nil)) && imp(is(op, *MatchExpr), forall(k, 0, len(as(op, *MatchExpr).Targets), as(op, *MatchExpr).Targets[k] != nil))
def lok(l) = l != nil && forall(k, 0, len(l.l), wfop(l.l[k]))

iface teal.usesLabels.Labels(op) (r)
  props C04 C05
  ensures labels: len(r) == nlab(op) && forall(k, 0, len(r), r[k] == labk(op, k))
  modifies nothing

# the line a finding is attached to
def errLine(e) = ite(is(e, DuplicateLabelError), as(e, DuplicateLabelError).l, ite(is(e, *UnusedLabelError), as(e, *UnusedLabelError).l, ite(is(e, UnreachableCodeError), as(e, UnreachableCodeError).l, ite(is(e, BJustBeforeLabelError), as(e, BJustBeforeLabelError).l, ite(is(e, MissingLabelError), as(e, MissingLabelError).l, ite(is(e, InfiniteLoopError), as(e, InfiniteLoopError).l, as(e, PragmaVersionAfterInstrError).l))))))
def errKnown(e) = is(e, DuplicateLabelError) || (is(e, *UnusedLabelError) && as(e, *UnusedLabelError) != nil) || is(e, UnreachableCodeError) || is(e, BJustBeforeLabelError) || is(e, MissingLabelError) || is(e, InfiniteLoopError) || is(e, PragmaVersionAfterInstrError)
def errIn(e, n) = errKnown(e) && 0 <= errLine(e) && errLine(e) < n

iface teal.LineError.Line(e) (r)
  flags split

# ---- label tables: for every name the lines that define it, and the lines that refer to it (once per reference)
rec ext ic(s []int, x int, k int) int = ite(k <= 0, 0, ic(s, x, k-1) + ite(s[k-1] == x, 1, 0))
rec dcn(L []Op, n string, k int) int = ite(k <= 0, 0, dcn(L, n, k-1) + ite(isLab(L[k-1]) && labName(L[k-1]) == n, 1, 0))
rec lcnt(op Op, n string, k int) int = ite(k <= 0, 0, lcnt(op, n, k-1) + ite(labk(op, k-1).Name == n, 1, 0))
rec rcn(L []Op, n string, k int) int = ite(k <= 0, 0, rcn(L, n, k-1) + lcnt(L[k-1], n, nlab(L[k-1])))
def lsep(m) = all(n, string, imp(dom(m, n), base(m[n]) < alloc() && (base(m[n]) == 0 || fresh(m[n])))) && all(n, string, all(o, string, imp(dom(m, n) && dom(m, o) && n != o, base(m[n]) != base(m[o]) || base(m[n]) == 0)))
def lrange(m, hi) = all(n, string, imp(dom(m, n), forall(k, 0, len(m[n]), 0 <= m[n][k] && m[n][k] < hi)))
lemma icNone(s []int, x int, k int) by k trigger(ic(s, x, k)): imp(forall(j, 0, k, s[j] != x), ic(s, x, k) == 0)
def isDef(L, i, n) = isLab(L[i]) && labName(L[i]) == n
def allDefs(m, L, hi) = all(n, string, len(m[n]) == dcn(L, n, hi) && iff(dom(m, n), dcn(L, n, hi) > 0)) && all(n, string, forall(x, 0, hi, ic(m[n], x, len(m[n])) == ite(isDef(L, x, n), 1, 0)))

func teal.(*Linter).getAllLabels(l) (m)
  props C04 C05
  requires l != nil && lsOK(l.l)
  ensures new: m != nil && fresh(m)
  ensures range: lrange(m, len(l.l))
  ensures sep: lsep(m)
  ensures len: all(n, string, len(m[n]) == dcn(l.l, n, len(l.l)))
  ensures dom: all(n, string, iff(dom(m, n), dcn(l.l, n, len(l.l)) > 0))
  ensures own: all(n, string, imp(dom(m, n), forall(k, 0, len(m[n]), isDef(l.l, m[n][k], n))))
  ensures lines: all(n, string, forall(x, 0, len(l.l), ic(m[n], x, len(m[n])) == ite(isDef(l.l, x, n), 1, 0)))
  modifies newelems(int)
  flags terminates
  invariant <i:idx, m:map[string][]int> lrange(m, i)
  invariant <m:map[string][]int> lsep(m)
  invariant <m:map[string][]int> all(n, string, imp(dom(m, n), forall(k, 0, len(m[n]), isDef(l.l, m[n][k], n))))
  invariant <i:idx, m:map[string][]int> all(n, string, len(m[n]) == dcn(l.l, n, i))
  invariant <i:idx, m:map[string][]int> all(n, string, iff(dom(m, n), dcn(l.l, n, i) > 0))
  invariant <i:idx, m:map[string][]int> all(n, string, all(x, int, ic(m[n], x, len(m[n])) == ite(0 <= x && x < i && isDef(l.l, x, n), 1, 0)))

lemma lcntPos(op Op, n string, k int) by k trigger(lcnt(op, n, k)): lcnt(op, n, k) >= 0
lemma rcnPos(L []Op, n string, k int) by k trigger(rcn(L, n, k)): rcn(L, n, k) >= 0
def refs(op, n) = lcnt(op, n, nlab(op))

func teal.(*Linter).getLabelsUsers(l) (m)
  props C04 C05
  requires l != nil && lsOK(l.l)
  ensures new: m != nil && fresh(m)
  ensures range: lrange(m, len(l.l))
  ensures sep: lsep(m)
  ensures len: all(n, string, len(m[n]) == rcn(l.l, n, len(l.l)))
  ensures dom: all(n, string, iff(dom(m, n), rcn(l.l, n, len(l.l)) > 0))
  ensures lines: all(n, string, forall(x, 0, len(l.l), ic(m[n], x, len(m[n])) == refs(l.l[x], n)))
  modifies newelems(int)
  flags terminates
  invariant <i:idx, m:map[string][]int> lrange(m, i)
  invariant <o:oidx, m:map[string][]int> lrange(m, o+1)
  invariant <m:map[string][]int> lsep(m)
  invariant <i:idx, m:map[string][]int> all(n, string, len(m[n]) == rcn(l.l, n, i))
  invariant <i:idx, m:map[string][]int> all(n, string, iff(dom(m, n), rcn(l.l, n, i) > 0))
  invariant <i:idx, m:map[string][]int> all(n, string, forall(x, 0, i, ic(m[n], x, len(m[n])) == refs(l.l[x], n)))
  invariant <i:idx, o:oidx, m:map[string][]int> all(n, string, len(m[n]) == rcn(l.l, n, o) + lcnt(l.l[o], n, i))
  invariant <i:idx, o:oidx, m:map[string][]int> all(n, string, iff(dom(m, n), rcn(l.l, n, o) + lcnt(l.l[o], n, i) > 0))
  invariant <i:idx, o:oidx, m:map[string][]int> all(n, string, ic(m[n], o, len(m[n])) == lcnt(l.l[o], n, i))
  invariant <o:oidx, m:map[string][]int> all(n, string, forall(x, 0, o, ic(m[n], x, len(m[n])) == refs(l.l[x], n)))

# ---- findings: how many of kind c on line x among the findings lo..k-1
rec eline(e LineError) int = errLine(e)
def ekind(e) = ite(is(e, DuplicateLabelError), 1, ite(is(e, *UnusedLabelError), 2, ite(is(e, UnreachableCodeError), 3, ite(is(e, BJustBeforeLabelError), 4, ite(is(e, MissingLabelError), 5, ite(is(e, InfiniteLoopError), 6, ite(is(e, PragmaVersionAfterInstrError), 7, 0)))))))
rec ext via(eline) ec(s []LineError, lo int, c int, x int, k int) int = ite(k <= lo || k <= 0, 0, ec(s, lo, c, x, k-1) + ite(ekind(s[k-1]) == c && eline(s[k-1]) == x, 1, 0))
rec ext ecm(s []LineError, lo int, x int, n string, k int) int = ite(k <= lo || k <= 0, 0, ecm(s, lo, x, n, k-1) + ite(is(s[k-1], MissingLabelError) && as(s[k-1], MissingLabelError).l == x && as(s[k-1], MissingLabelError).name == n, 1, 0))
def errKept(l) = len(l.errs) >= old(len(l.errs)) && forall(k, 0, old(len(l.errs)), l.errs[k] == old(l.errs[k]))
def errBase(l) = base(l.errs) == old(base(l.errs)) || fresh(l.errs)
def dupL(L, x) = isLab(L[x]) && dcn(L, labName(L[x]), len(L)) > 1
def dupErr(e, L) = is(e, DuplicateLabelError) && 0 <= as(e, DuplicateLabelError).l && as(e, DuplicateLabelError).l < len(L) && isDef(L, as(e, DuplicateLabelError).l, as(e, DuplicateLabelError).name) && as(e, DuplicateLabelError).rule == "LINT0001"

func teal.(DuplicateLabelsRule).Run(r, l)
  props C02 C03 C04
  requires l != nil && lsOK(l.l)
  ensures keep: errKept(l) && errBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), dupErr(l.errs[k], l.l))
  ensures exact: forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == ite(dupL(l.l, x), 1, 0))
  modifies l.errs, elems(l.errs), newelems(LineError), newelems(int)
  flags terminates
  invariant errKept(l)
  invariant errBase(l)
  invariant forall(k, old(len(l.errs)), len(l.errs), dupErr(l.errs[k], l.l))
  invariant forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == ite(dupL(l.l, x) && visited(labName(l.l[x])), 1, 0))
  invariant <i:idx, s:[]int, n:string> forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == ite(dupL(l.l, x) && visited(labName(l.l[x])) && labName(l.l[x]) != n, 1, 0) + ic(s, x, i))

def unused(L, x) = isLab(L[x]) && rcn(L, labName(L[x]), len(L)) == 0
def unusedErr(e, L) = is(e, *UnusedLabelError) && as(e, *UnusedLabelError) != nil && ref(as(e, *UnusedLabelError)) < alloc() && 0 <= as(e, *UnusedLabelError).l && as(e, *UnusedLabelError).l < len(L) && isDef(L, as(e, *UnusedLabelError).l, as(e, *UnusedLabelError).name) && as(e, *UnusedLabelError).rule == "LINT0002"
def unusedRed(e, L) = is(e, *RedundantLabelLine) && as(e, *RedundantLabelLine) != nil && ref(as(e, *RedundantLabelLine)) < alloc() && 0 <= as(e, *RedundantLabelLine).line && as(e, *RedundantLabelLine).line < len(L) && isDef(L, as(e, *RedundantLabelLine).line, as(e, *RedundantLabelLine).name)
rec rline(e RedundantLine) int = ite(is(e, *RedundantLabelLine), as(e, *RedundantLabelLine).line, as(e, RedundantBLine).line)
rec ext via(rline) rc(s []RedundantLine, lo int, x int, k int) int = ite(k <= lo || k <= 0, 0, rc(s, lo, x, k-1) + ite(rline(s[k-1]) == x, 1, 0))
def redKept(l) = len(l.reds) >= old(len(l.reds)) && forall(k, 0, old(len(l.reds)), l.reds[k] == old(l.reds[k]))
def redBase(l) = base(l.reds) == old(base(l.reds)) || fresh(l.reds)

func teal.(UnusedLabelsRule).Run(r, l)
  props C02 C03 C04
  requires l != nil && lsOK(l.l)
  requires forall(k, 0, len(l.errs), imp(is(l.errs[k], *UnusedLabelError), ref(as(l.errs[k], *UnusedLabelError)) < alloc()))
  requires forall(k, 0, len(l.reds), imp(is(l.reds[k], *RedundantLabelLine), ref(as(l.reds[k], *RedundantLabelLine)) < alloc()))
  ensures keep: errKept(l) && errBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), unusedErr(l.errs[k], l.l))
  ensures exact: forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == ite(unused(l.l, x), 1, 0))
  ensures rkeep: redKept(l) && redBase(l)
  ensures rkind: forall(k, old(len(l.reds)), len(l.reds), unusedRed(l.reds[k], l.l))
  ensures rexact: forall(x, 0, len(l.l), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == ite(unused(l.l, x), 1, 0))
  modifies l.errs, elems(l.errs), newelems(LineError), newelems(int), l.reds, elems(l.reds), newelems(RedundantLine), new(UnusedLabelError), new(RedundantLabelLine)
  flags terminates
  invariant errKept(l)
  invariant errBase(l)
  invariant redKept(l)
  invariant redBase(l)
  invariant forall(k, old(len(l.errs)), len(l.errs), unusedErr(l.errs[k], l.l))
  invariant forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == ite(unused(l.l, x) && visited(labName(l.l[x])), 1, 0))
  invariant <i:idx, s:[]int, n:string> forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == ite(unused(l.l, x) && visited(labName(l.l[x])) && labName(l.l[x]) != n, 1, 0) + ic(s, x, i))
  invariant forall(k, old(len(l.reds)), len(l.reds), unusedRed(l.reds[k], l.l))
  invariant forall(x, 0, len(l.l), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == ite(unused(l.l, x) && visited(labName(l.l[x])), 1, 0))
  invariant <i:idx, s:[]int, n:string> forall(x, 0, len(l.l), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == ite(unused(l.l, x) && visited(labName(l.l[x])) && labName(l.l[x]) != n, 1, 0) + ic(s, x, i))

# position k lies after an unconditional branch with no referenced label in between
rec deadU(L []Op, n int, k int) bool = k > 0 && !(isLab(L[k-1]) && rcn(L, labName(L[k-1]), n) > 0) && (deadU(L, n, k-1) || uncond(L[k-1]))
def unreach(L, x) = deadU(L, len(L), x) && !isLab(L[x]) && !isNop(L[x])
def unreachErr(e, L) = is(e, UnreachableCodeError) && 0 <= as(e, UnreachableCodeError).l && as(e, UnreachableCodeError).l < len(L) && as(e, UnreachableCodeError).rule == "LINT0003"

func teal.(OpsAfterUnconditionalBranchRule).Run(r, l)
  props C02 C03 C05
  requires l != nil && lsOK(l.l)
  ensures keep: errKept(l) && errBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), unreachErr(l.errs[k], l.l))
  ensures exact: forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == ite(unreach(l.l, x), 1, 0))
  modifies l.errs, elems(l.errs), newelems(LineError), newelems(int)
  flags terminates
  invariant errKept(l)
  invariant errBase(l)
  invariant forall(k, old(len(l.errs)), len(l.errs), unreachErr(l.errs[k], l.l))
  invariant <i:idx> imp(i < len(l.l), !deadU(l.l, len(l.l), i))
  invariant <i:idx> deadU(l.l, len(l.l), i)
  invariant <i:idx, b:!bool> iff(b, deadU(l.l, len(l.l), i))
  invariant <i:idx, b:!bool> iff(!b, deadU(l.l, len(l.l), i))
  invariant <i:idx> forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == ite(x < i && unreach(l.l, x), 1, 0))

def bjErr(e, L) = is(e, BJustBeforeLabelError) && 0 <= as(e, BJustBeforeLabelError).l && as(e, BJustBeforeLabelError).l < len(L) && as(e, BJustBeforeLabelError).rule == "LINT0004"
def bjRed(e, L) = is(e, RedundantBLine) && 0 <= as(e, RedundantBLine).line && as(e, RedundantBLine).line < len(L)

func teal.(CheckBranchJustBeforeLabelRule).Run(r, l)
  props C02 C03 C05
  requires l != nil && lsOK(l.l)
  ensures keep: errKept(l) && errBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), bjErr(l.errs[k], l.l))
  ensures exact: forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == ite(dropB(l.l, x), 1, 0))
  ensures rkeep: redKept(l) && redBase(l)
  ensures rkind: forall(k, old(len(l.reds)), len(l.reds), bjRed(l.reds[k], l.l))
  ensures rexact: forall(x, 0, len(l.l), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == ite(dropB(l.l, x), 1, 0))
  modifies l.errs, elems(l.errs), newelems(LineError), l.reds, elems(l.reds), newelems(RedundantLine)
  flags terminates
  invariant errKept(l)
  invariant errBase(l)
  invariant redKept(l)
  invariant redBase(l)
  invariant forall(k, old(len(l.errs)), len(l.errs), bjErr(l.errs[k], l.l))
  invariant forall(k, old(len(l.reds)), len(l.reds), bjRed(l.reds[k], l.l))
  invariant <i:idx> forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == ite(x < i && dropB(l.l, x), 1, 0))
  invariant <i:idx> forall(x, 0, len(l.l), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == ite(x < i && dropB(l.l, x), 1, 0))
  invariant <j:idx, o:oidx> 0 <= o && o < len(l.l) && o < j && is(l.l[o], *BExpr) && iff(leads(l.l, as(l.l[o], *BExpr).Label.Name, len(l.l)-o-1), leads(l.l, as(l.l[o], *BExpr).Label.Name, len(l.l)-j))

rec seenI(L []Op, k int) bool = k > 0 && (seenI(L, k-1) || is(L[k-1], *PragmaExpr) || !isNop(L[k-1]))
def misplaced(L, x) = is(L[x], *PragmaExpr) && seenI(L, x)
def prErr(e, L) = is(e, PragmaVersionAfterInstrError) && 0 <= as(e, PragmaVersionAfterInstrError).l && as(e, PragmaVersionAfterInstrError).l < len(L) && as(e, PragmaVersionAfterInstrError).rule == "LINT0006"

func teal.(CheckPragmaRule).Run(r, l)
  props C02 C03 C05
  requires l != nil && lsOK(l.l)
  ensures keep: errKept(l) && errBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), prErr(l.errs[k], l.l))
  ensures exact: forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == ite(misplaced(l.l, x), 1, 0))
  modifies l.errs, elems(l.errs), newelems(LineError)
  flags terminates
  invariant errKept(l)
  invariant errBase(l)
  invariant forall(k, old(len(l.errs)), len(l.errs), prErr(l.errs[k], l.l))
  invariant <i:idx, p:!Op> iff(p != nil, seenI(l.l, i))
  invariant <i:idx, b:!bool> iff(b, seenI(l.l, i))
  invariant <i:idx, b:!bool> iff(!b, seenI(l.l, i))
  invariant <i:idx> forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == ite(x < i && misplaced(l.l, x), 1, 0))

# ---- loops: the label called name is defined outside from..to
rec defOut(L []Op, name string, from int, to int, k int) bool = k > 0 && ((isDef(L, k-1, name) && (k-1 < from || k-1 > to)) || defOut(L, name, from, to, k-1))
lemma defOutHit(L []Op, name string, from int, to int, i int, k int) by k trigger(defOut(L, name, from, to, k), L[i]): imp(0 <= i && i < k && isDef(L, i, name) && (i < from || i > to), defOut(L, name, from, to, k))
lemma defOutNone(L []Op, name string, from int, to int, k int) by k trigger(defOut(L, name, from, to, k)): imp(forall(x, 0, k, imp(x < from || x > to, !isDef(L, x, name))), !defOut(L, name, from, to, k))
rec escLab(L []Op, op Op, from int, to int, k int) bool = k > 0 && (escLab(L, op, from, to, k-1) || defOut(L, labk(op, k-1).Name, from, to, len(L)))
def hasLabels(op) = impl(op, usesLabels)
def escAt(L, i, from, to) = ite(hasLabels(L[i]), escLab(L, L[i], from, to, nlab(L[i])), impl(L[i], Terminator))
rec escIn(L []Op, from int, to int, k int) bool = k > from && (escIn(L, from, to, k-1) || escAt(L, k-1, from, to))
lemma escLabHit(L []Op, op Op, from int, to int, i int, k int) by k trigger(escLab(L, op, from, to, k), escLab(L, op, from, to, i)): imp(0 <= i && i < k && defOut(L, labk(op, i).Name, from, to, len(L)), escLab(L, op, from, to, k))
lemma escInHit(L []Op, from int, to int, i int, k int) by k trigger(escIn(L, from, to, k), escIn(L, from, to, i)): imp(0 <= from && from <= i && i < k && escAt(L, i, from, to), escIn(L, from, to, k))

func teal.(*Linter).canEscape(l, from, to) (r)
  props C05
  requires l != nil && lsOK(l.l) && 0 <= from && to < len(l.l) && from <= to
  ensures exact: iff(r, escIn(l.l, from, to, to+1))
  modifies newelems(int)
  flags terminates
  invariant <i:idx> from <= i && i <= to + 1
  invariant <i:idx> !escIn(l.l, from, to, i)
  invariant <i:oidx> from <= i && i <= to
  invariant <i:oidx> !escIn(l.l, from, to, i)
  invariant <k:idx, i:oidx> !escLab(l.l, l.l[i], from, to, k)
  invariant <k:oidx, i:oidx> !escLab(l.l, l.l[i], from, to, k)
  invariant <k:idx, s:[]int> forall(j, 0, k, from <= s[j] && s[j] <= to)

rec nearest(L []Op, name string, k int) int = ite(k <= 0, -1, ite(isDef(L, k-1, name), k-1, nearest(L, name, k-1)))
lemma nearestRange(L []Op, name string, k int) by k trigger(nearest(L, name, k)): -1 <= nearest(L, name, k) && imp(k >= 0, nearest(L, name, k) < k)
def target(L, x) = nearest(L, as(L[x], *BExpr).Label.Name, x)
def infinite(L, x) = is(L[x], *BExpr) && target(L, x) >= 0 && !escIn(L, target(L, x), x, x+1)
def loopErr(e, L) = (is(e, InfiniteLoopError) && 0 <= as(e, InfiniteLoopError).l && as(e, InfiniteLoopError).l < len(L) && as(e, InfiniteLoopError).rule == "LINT0005") || (is(e, MissingLabelError) && 0 <= as(e, MissingLabelError).l && as(e, MissingLabelError).l < len(L) && as(e, MissingLabelError).rule == "LINT0005")

func teal.(CheckLoopsRule).Run(r, l)
  props C02 C03 C04 C05
  requires l != nil && lsOK(l.l)
  ensures keep: errKept(l) && errBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), loopErr(l.errs[k], l.l))
  ensures missing: all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) == 0, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))
  ensures onlymissing: all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) != 0, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))
  ensures infinite: forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == ite(infinite(l.l, x), 1, 0))
  modifies l.errs, elems(l.errs), newelems(LineError), newelems(int)
  flags terminates
  invariant errKept(l)
  invariant errBase(l)
  invariant forall(k, old(len(l.errs)), len(l.errs), loopErr(l.errs[k], l.l))
  invariant all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && visited(n) && dcn(l.l, n, len(l.l)) == 0, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))
  invariant all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && !(visited(n) && dcn(l.l, n, len(l.l)) == 0), ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))
  invariant <i:idx, s:[]int, m:string> forall(x, 0, len(l.l), imp(l.l[x] != nil, ecm(l.errs, old(len(l.errs)), x, m, len(l.errs)) == ic(s, x, i)))
  invariant <m:string> all(n, string, forall(x, 0, len(l.l), imp(n != m && l.l[x] != nil && visited(n) && dcn(l.l, n, len(l.l)) == 0, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))
  invariant <m:string> all(n, string, forall(x, 0, len(l.l), imp(n != m && l.l[x] != nil && !(visited(n) && dcn(l.l, n, len(l.l)) == 0), ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))
  invariant all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) == 0, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))
  invariant all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) != 0, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))
  invariant forall(x, 0, len(l.l), imp(l.l[x] != nil, ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == 0))
  invariant <i:idx> forall(x, 0, len(l.l), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == ite(x < i && infinite(l.l, x), 1, 0))
  invariant <j:idx, o:oidx> 0 < o && o < len(l.l) && j < o && is(l.l[o], *BExpr) && target(l.l, o) == nearest(l.l, as(l.l[o], *BExpr).Label.Name, j+1)
