# C15: the optimizer only removes code that cannot matter
rec wfR(op Op) bool = wfop(op)
def lsOK(L) = forall(k, 0, len(L), wfR(L[k]))
rec inL(L []Op, x Op, k int) bool = k > 0 && (L[k-1] == x || inL(L, x, k-1))
lemma inMem(L []Op, i int, k int) by k trigger(inL(L, L[i], k)): imp(0 <= i && i < k, inL(L, L[i], k))
def isLab(op) = is(op, *LabelExpr)
def labName(op) = as(op, *LabelExpr).Name
def uncond(op) = is(op, *BExpr) || is(op, *ReturnExpr) || is(op, *ErrExpr)

# position k lies after an unconditional branch with no label in between
rec ext deadAt(L []Op, k int) bool = ite(k <= 0, false, !isLab(L[k-1]) && (deadAt(L, k-1) || uncond(L[k-1])))
def keepA(L, i) = !deadAt(L, i) || isNop(L[i])
rec ext cntA(L []Op, k int) int = ite(k <= 0, 0, cntA(L, k-1) + ite(keepA(L, k-1), 1, 0))
def upto(i, L) = ite(i > len(L), len(L), i)

func teal.removeOpsAfterUnconditionalBranch(l) (r)
  props C15
  requires lsOK(l)
  ensures count: len(r) == cntA(l, len(l))
  ensures kept: forall(i, 0, len(l), imp(keepA(l, i), 0 <= cntA(l, i) && cntA(l, i) < len(r) && r[cntA(l, i)] == l[i]))
  ensures from: forall(q, 0, len(r), inL(l, r[q], len(l)))
  ensures labels: forall(i, 0, len(l), imp(isLab(l[i]), inL(r, l[i], len(r))))
  modifies newelems(Op)
  flags terminates
  invariant <s:!Listing> forall(q, 0, len(s), inL(l, s[q], len(l)))
  invariant <i:idx, s:!Listing> len(s) == cntA(l, upto(i, l))
  invariant <i:idx, s:!Listing> forall(j, 0, upto(i, l), imp(keepA(l, j), 0 <= cntA(l, j) && cntA(l, j) < len(s) && s[cntA(l, j)] == l[j]))
  invariant <i:idx> imp(i < len(l), !deadAt(l, i))
  invariant <i:idx> deadAt(l, i)
  invariant <i:idx, b:!bool> iff(b, deadAt(l, i))
  invariant <i:idx, b:!bool> iff(!b, deadAt(l, i))
  invariant <s:!Listing> base(s) == 0 || fresh(s)

# from position len(L)-d on, only empty lines and pragmas precede the label called name
rec leads(L []Op, name string, d int) bool = ite(d <= 0, false, ite(isLab(L[len(L)-d]), labName(L[len(L)-d]) == name, isNop(L[len(L)-d]) && leads(L, name, d-1)))
def dropB(L, i) = is(L[i], *BExpr) && leads(L, as(L[i], *BExpr).Label.Name, len(L)-i-1)
rec cntB(L []Op, n int, k int) int = ite(k <= 0, 0, cntB(L, n, k-1) + ite(dropB(L, k-1), 0, 1))

func teal.removeBJustBeforeItsTargetLabel(l) (r)
  props C15
  requires lsOK(l)
  ensures count: len(r) == cntB(l, len(l), len(l))
  ensures kept: forall(i, 0, len(l), imp(!dropB(l, i), 0 <= cntB(l, len(l), i) && cntB(l, len(l), i) < len(r) && r[cntB(l, len(l), i)] == l[i]))
  ensures from: forall(q, 0, len(r), inL(l, r[q], len(l)))
  ensures labels: forall(i, 0, len(l), imp(isLab(l[i]), inL(r, l[i], len(r))))
  modifies newelems(Op)
  flags terminates
  invariant <s:!Listing> forall(q, 0, len(s), inL(l, s[q], len(l)))
  invariant <i:idx, s:!Listing> len(s) == cntB(l, len(l), i)
  invariant <i:idx, s:!Listing> forall(j, 0, i, imp(!dropB(l, j), 0 <= cntB(l, len(l), j) && cntB(l, len(l), j) < len(s) && s[cntB(l, len(l), j)] == l[j]))
  invariant <s:!Listing> base(s) == 0 || fresh(s)
  invariant <j:idx, o:oidx> 0 <= o && o < len(l) && o < j && is(l[o], *BExpr) && iff(leads(l, as(l[o], *BExpr).Label.Name, len(l)-o-1), leads(l, as(l[o], *BExpr).Label.Name, len(l)-j))

# merging keeps every entry (a label is never directly preceded by a label instruction: labels are skipped)
func teal.mergeLabels(l) (r)
  props C15
  requires lsOK(l)
  ensures count: len(r) == len(l)
  ensures kept: forall(i, 0, len(l), r[i] == l[i])
  ensures from: forall(q, 0, len(r), inL(l, r[q], len(l)))
  ensures labels: forall(i, 0, len(l), imp(isLab(l[i]), inL(r, l[i], len(r))))
  modifies newelems(Op)
  flags terminates
  invariant <s:!Listing> forall(q, 0, len(s), inL(l, s[q], len(l)))
  invariant <i:idx, s:!Listing> len(s) == i && forall(j, 0, i, s[j] == l[j])
  invariant <p:!Op> !is(p, *LabelExpr)
  invariant <s:!Listing> base(s) == 0 || fresh(s)

# a label is referenced when some instruction has it among its targets
rec labR(op Op, n string, k int) bool = k > 0 && (labk(op, k-1).Name == n || labR(op, n, k-1))
def usesN(op, n) = labR(op, n, nlab(op))
rec usedIn(L []Op, n string, k int) bool = k > 0 && (usesN(L[k-1], n) || usedIn(L, n, k-1))
# a subroutine body starts after position len(L)-d, with only empty lines and labels before it
rec subAt(L []Op, d int) bool = ite(d <= 0, false, is(L[len(L)-d], *RetSubExpr) || is(L[len(L)-d], *ProtoExpr) || (isNop(L[len(L)-d]) && subAt(L, d-1)))
def keepU(L, i) = !isLab(L[i]) || usedIn(L, labName(L[i]), len(L)) || subAt(L, len(L)-i-1)
rec cntU(L []Op, k int) int = ite(k <= 0, 0, cntU(L, k-1) + ite(keepU(L, k-1), 1, 0))

func teal.removeUnused(l) (r)
  props C15
  requires lsOK(l)
  ensures count: len(r) == cntU(l, len(l))
  ensures kept: forall(i, 0, len(l), imp(keepU(l, i), 0 <= cntU(l, i) && cntU(l, i) < len(r) && r[cntU(l, i)] == l[i]))
  ensures from: forall(q, 0, len(r), inL(l, r[q], len(l)))
  ensures labels: forall(i, 0, len(l), imp(isLab(l[i]) && usedIn(l, labName(l[i]), len(l)), inL(r, l[i], len(r))))
  modifies newelems(Op)
  flags terminates
  invariant <i:idx, m:map[string]bool> all(n, string, iff(dom(m, n) && m[n], usedIn(l, n, i)))
  invariant <i:idx, m:map[string]bool, o:oidx> all(n, string, iff(dom(m, n) && m[n], usedIn(l, n, o) || labR(l[o], n, i)))
  invariant <i:idx, s:!Listing> len(s) == cntU(l, i)
  invariant <i:idx, s:!Listing> forall(j, 0, i, imp(keepU(l, j), 0 <= cntU(l, j) && cntU(l, j) < len(s) && s[cntU(l, j)] == l[j]))
  invariant <s:!Listing> base(s) == 0 || fresh(s)
  invariant <s:!Listing> forall(q, 0, len(s), inL(l, s[q], len(l)))
  invariant <j:idx, o:oidx> 0 <= o && o < j && o < len(l) && iff(subAt(l, len(l)-o-1), subAt(l, len(l)-j))

lemma memOK(L []Op, x Op, k int) by k trigger(inL(L, x, k)): imp(inL(L, x, k) && forall(j, 0, k, wfR(L[j])), wfR(x))
lemma memTrans(A []Op, B []Op, x Op, m int, k int) by k trigger(inL(A, x, k), inL(B, x, m)): imp(inL(A, x, k) && forall(j, 0, k, inL(B, A[j], m)), inL(B, x, m))
lemma memLab(A []Op, B []Op, x Op, m int, k int) by k trigger(inL(A, x, k), inL(B, x, m)): imp(inL(A, x, k) && isLab(x) && forall(j, 0, k, imp(isLab(A[j]), inL(B, A[j], m))), inL(B, x, m))
lemma usedMem(B []Op, x Op, n string, k int) by k trigger(inL(B, x, k), usedIn(B, n, k)): imp(inL(B, x, k) && usesN(x, n), usedIn(B, n, k))
lemma usedSub(A []Op, B []Op, n string, m int, k int) by k trigger(usedIn(A, n, k), usedIn(B, n, m)): imp(usedIn(A, n, k) && forall(j, 0, k, inL(B, A[j], m)), usedIn(B, n, m))

func teal.(Listing).Optimize(l) (r)
  props C15
  requires lsOK(l)
  ensures from: forall(q, 0, len(r), inL(l, r[q], len(l)))
  ensures defined: forall(i, 0, len(l), imp(isLab(l[i]) && usedIn(r, labName(l[i]), len(r)), inL(r, l[i], len(r))))
  modifies newelems(Op)
