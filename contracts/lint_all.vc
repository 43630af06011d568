# generated by tools/mklintvc.py
def rkind(r) = ite(is(r, DuplicateLabelsRule), 1, ite(is(r, UnusedLabelsRule), 2, ite(is(r, OpsAfterUnconditionalBranchRule), 3, ite(is(r, CheckBranchJustBeforeLabelRule), 4, ite(is(r, CheckLoopsRule), 6, ite(is(r, CheckPragmaRule), 7, 0))))))
rec rn(R []LintRule, c int, k int) int = ite(k <= 0, 0, rn(R, c, k-1) + ite(rkind(R[k-1]) == c, 1, 0))
lemma rnPos(R []LintRule, c int, k int) by k trigger(rn(R, c, k)): rn(R, c, k) >= 0
lemma ecSplit(s []LineError, lo int, mid int, c int, x int, k int) by k trigger(ec(s, lo, c, x, k), ec(s, mid, c, x, k)): imp(0 <= lo && lo <= mid && mid <= k, ec(s, lo, c, x, k) == ec(s, lo, c, x, mid) + ec(s, mid, c, x, k))
lemma ecmSplit(s []LineError, lo int, mid int, x int, n string, k int) by k trigger(ecm(s, lo, x, n, k), ecm(s, mid, x, n, k)): imp(0 <= lo && lo <= mid && mid <= k, ecm(s, lo, x, n, k) == ecm(s, lo, x, n, mid) + ecm(s, mid, x, n, k))
lemma rcSplit(s []RedundantLine, lo int, mid int, x int, k int) by k trigger(rc(s, lo, x, k), rc(s, mid, x, k)): imp(0 <= lo && lo <= mid && mid <= k, rc(s, lo, x, k) == rc(s, lo, x, mid) + rc(s, mid, x, k))
lemma ecNone(s []LineError, lo int, c int, x int, k int) by k trigger(ec(s, lo, c, x, k)): imp(0 <= lo && forall(j, lo, k, ekind(s[j]) != c), ec(s, lo, c, x, k) == 0)
lemma ecmNone(s []LineError, lo int, x int, n string, k int) by k trigger(ecm(s, lo, x, n, k)): imp(0 <= lo && forall(j, lo, k, ekind(s[j]) != 5), ecm(s, lo, x, n, k) == 0)
def errIs(e, L) = dupErr(e, L) || unusedErr(e, L) || unreachErr(e, L) || bjErr(e, L) || loopErr(e, L) || prErr(e, L)
def redIs(e, L) = unusedRed(e, L) || bjRed(e, L)
def allocd(l) = forall(k, 0, len(l.errs), imp(is(l.errs[k], *UnusedLabelError), ref(as(l.errs[k], *UnusedLabelError)) < alloc())) && forall(k, 0, len(l.reds), imp(is(l.reds[k], *RedundantLabelLine), ref(as(l.reds[k], *RedundantLabelLine)) < alloc()))

iface teal.runnableRule.Run(r, l)
  props C02 C03 C04 C05
  requires l != nil && lsOK(l.l)
  requires allocd(l)
  ensures keep: errKept(l) && errBase(l) && redKept(l) && redBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), errIs(l.errs[k], l.l))
  ensures rkind: forall(k, old(len(l.reds)), len(l.reds), redIs(l.reds[k], l.l))
  ensures alloc: allocd(l)
  ensures dup: forall(x, 0, len(l.l), imp(l.l[x] != nil && dupL(l.l, x), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == ite(rkind(r) == 1, 1, 0)))
  ensures nodup: forall(x, 0, len(l.l), imp(l.l[x] != nil && !dupL(l.l, x), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == 0))
  ensures unused: forall(x, 0, len(l.l), imp(l.l[x] != nil && unused(l.l, x), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == ite(rkind(r) == 2, 1, 0)))
  ensures nounused: forall(x, 0, len(l.l), imp(l.l[x] != nil && !unused(l.l, x), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == 0))
  ensures unreach: forall(x, 0, len(l.l), imp(l.l[x] != nil && unreach(l.l, x), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == ite(rkind(r) == 3, 1, 0)))
  ensures nounreach: forall(x, 0, len(l.l), imp(l.l[x] != nil && !unreach(l.l, x), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == 0))
  ensures bjust: forall(x, 0, len(l.l), imp(l.l[x] != nil && dropB(l.l, x), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == ite(rkind(r) == 4, 1, 0)))
  ensures nobjust: forall(x, 0, len(l.l), imp(l.l[x] != nil && !dropB(l.l, x), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == 0))
  ensures infinite: forall(x, 0, len(l.l), imp(l.l[x] != nil && infinite(l.l, x), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == ite(rkind(r) == 6, 1, 0)))
  ensures noinfinite: forall(x, 0, len(l.l), imp(l.l[x] != nil && !infinite(l.l, x), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == 0))
  ensures pragma: forall(x, 0, len(l.l), imp(l.l[x] != nil && misplaced(l.l, x), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == ite(rkind(r) == 7, 1, 0)))
  ensures nopragma: forall(x, 0, len(l.l), imp(l.l[x] != nil && !misplaced(l.l, x), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == 0))
  ensures missing: all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) == 0 && ite(rkind(r) == 6, 1, 0) == 1, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))
  ensures nomissing: all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && (dcn(l.l, n, len(l.l)) != 0 || ite(rkind(r) == 6, 1, 0) == 0), ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))
  ensures redlabel: forall(x, 0, len(l.l), imp(l.l[x] != nil && unused(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == ite(rkind(r) == 2, 1, 0)))
  ensures redb: forall(x, 0, len(l.l), imp(l.l[x] != nil && dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == ite(rkind(r) == 4, 1, 0)))
  ensures nored: forall(x, 0, len(l.l), imp(l.l[x] != nil && !unused(l.l, x) && !dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == 0))
  modifies l.errs, l.reds, elems(l.errs), elems(l.reds), newelems(LineError), newelems(RedundantLine), new(UnusedLabelError), new(RedundantLabelLine), newelems(int)
  flags refine

func teal.(*Linter).Lint(l)
  props C02 C03 C04 C05
  requires l != nil && lsOK(l.l)
  requires allocd(l)
  ensures keep: errKept(l) && errBase(l) && redKept(l) && redBase(l)
  ensures kind: forall(k, old(len(l.errs)), len(l.errs), errIs(l.errs[k], l.l))
  ensures rkind: forall(k, old(len(l.reds)), len(l.reds), redIs(l.reds[k], l.l))
  ensures alloc: allocd(l)
  ensures dup: forall(x, 0, len(l.l), imp(l.l[x] != nil && dupL(l.l, x), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == rn(LintRules, 1, len(LintRules))))
  ensures nodup: forall(x, 0, len(l.l), imp(l.l[x] != nil && !dupL(l.l, x), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == 0))
  ensures unused: forall(x, 0, len(l.l), imp(l.l[x] != nil && unused(l.l, x), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == rn(LintRules, 2, len(LintRules))))
  ensures nounused: forall(x, 0, len(l.l), imp(l.l[x] != nil && !unused(l.l, x), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == 0))
  ensures unreach: forall(x, 0, len(l.l), imp(l.l[x] != nil && unreach(l.l, x), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == rn(LintRules, 3, len(LintRules))))
  ensures nounreach: forall(x, 0, len(l.l), imp(l.l[x] != nil && !unreach(l.l, x), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == 0))
  ensures bjust: forall(x, 0, len(l.l), imp(l.l[x] != nil && dropB(l.l, x), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == rn(LintRules, 4, len(LintRules))))
  ensures nobjust: forall(x, 0, len(l.l), imp(l.l[x] != nil && !dropB(l.l, x), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == 0))
  ensures infinite: forall(x, 0, len(l.l), imp(l.l[x] != nil && infinite(l.l, x), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == rn(LintRules, 6, len(LintRules))))
  ensures noinfinite: forall(x, 0, len(l.l), imp(l.l[x] != nil && !infinite(l.l, x), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == 0))
  ensures pragma: forall(x, 0, len(l.l), imp(l.l[x] != nil && misplaced(l.l, x), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == rn(LintRules, 7, len(LintRules))))
  ensures nopragma: forall(x, 0, len(l.l), imp(l.l[x] != nil && !misplaced(l.l, x), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == 0))
  ensures missing: all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) == 0 && rn(LintRules, 6, len(LintRules)) == 1, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))
  ensures nomissing: all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && (dcn(l.l, n, len(l.l)) != 0 || rn(LintRules, 6, len(LintRules)) == 0), ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))
  ensures redlabel: forall(x, 0, len(l.l), imp(l.l[x] != nil && unused(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == rn(LintRules, 2, len(LintRules))))
  ensures redb: forall(x, 0, len(l.l), imp(l.l[x] != nil && dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == rn(LintRules, 4, len(LintRules))))
  ensures nored: forall(x, 0, len(l.l), imp(l.l[x] != nil && !unused(l.l, x) && !dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == 0))
  modifies l.errs, l.reds, elems(l.errs), elems(l.reds), newelems(LineError), newelems(RedundantLine), new(UnusedLabelError), new(RedundantLabelLine), newelems(int)
  flags terminates
  invariant errKept(l) && errBase(l) && redKept(l) && redBase(l)
  invariant forall(k, old(len(l.errs)), len(l.errs), errIs(l.errs[k], l.l))
  invariant forall(k, old(len(l.reds)), len(l.reds), redIs(l.reds[k], l.l))
  invariant allocd(l)
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && dupL(l.l, x), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == rn(LintRules, 1, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && !dupL(l.l, x), ec(l.errs, old(len(l.errs)), 1, x, len(l.errs)) == 0))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && unused(l.l, x), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == rn(LintRules, 2, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && !unused(l.l, x), ec(l.errs, old(len(l.errs)), 2, x, len(l.errs)) == 0))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && unreach(l.l, x), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == rn(LintRules, 3, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && !unreach(l.l, x), ec(l.errs, old(len(l.errs)), 3, x, len(l.errs)) == 0))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && dropB(l.l, x), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == rn(LintRules, 4, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && !dropB(l.l, x), ec(l.errs, old(len(l.errs)), 4, x, len(l.errs)) == 0))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && infinite(l.l, x), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == rn(LintRules, 6, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && !infinite(l.l, x), ec(l.errs, old(len(l.errs)), 6, x, len(l.errs)) == 0))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && misplaced(l.l, x), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == rn(LintRules, 7, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && !misplaced(l.l, x), ec(l.errs, old(len(l.errs)), 7, x, len(l.errs)) == 0))
  invariant <i:idx> all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) == 0 && rn(LintRules, 6, i) == 1, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))
  invariant <i:idx> all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && (dcn(l.l, n, len(l.l)) != 0 || rn(LintRules, 6, i) == 0), ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && unused(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == rn(LintRules, 2, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == rn(LintRules, 4, i)))
  invariant <i:idx> forall(x, 0, len(l.l), imp(l.l[x] != nil && !unused(l.l, x) && !dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == 0))
