#!/usr/bin/env python3
"""Generates contracts/lint_all.vc: the rule interface and Linter.Lint (each rule contributes exactly its own findings)."""
import os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R=[(1,"dup","dupL(l.l, x)","DuplicateLabelsRule","C04"),(2,"unused","unused(l.l, x)","UnusedLabelsRule","C04"),(3,"unreach","unreach(l.l, x)","OpsAfterUnconditionalBranchRule","C05"),
   (4,"bjust","dropB(l.l, x)","CheckBranchJustBeforeLabelRule","C05"),(6,"infinite","infinite(l.l, x)","CheckLoopsRule","C05"),(7,"pragma","misplaced(l.l, x)","CheckPragmaRule","C05")]
rk="0"
for n,_,_,t,_ in reversed(R): rk=f"ite(is(r, {t}), {n}, {rk})"
o=f'''# generated by tools/mklintvc.py
def rkind(r) = {rk}
rec rn(R []LintRule, c int, k int) int = ite(k <= 0, 0, rn(R, c, k-1) + ite(rkind(R[k-1]) == c, 1, 0))
lemma rnPos(R []LintRule, c int, k int) by k trigger(rn(R, c, k)): rn(R, c, k) >= 0
lemma ecSplit(s []LineError, lo int, mid int, c int, x int, k int) by k trigger(ec(s, lo, c, x, k), ec(s, mid, c, x, k)): imp(0 <= lo && lo <= mid && mid <= k, ec(s, lo, c, x, k) == ec(s, lo, c, x, mid) + ec(s, mid, c, x, k))
lemma ecmSplit(s []LineError, lo int, mid int, x int, n string, k int) by k trigger(ecm(s, lo, x, n, k), ecm(s, mid, x, n, k)): imp(0 <= lo && lo <= mid && mid <= k, ecm(s, lo, x, n, k) == ecm(s, lo, x, n, mid) + ecm(s, mid, x, n, k))
lemma rcSplit(s []RedundantLine, lo int, mid int, x int, k int) by k trigger(rc(s, lo, x, k), rc(s, mid, x, k)): imp(0 <= lo && lo <= mid && mid <= k, rc(s, lo, x, k) == rc(s, lo, x, mid) + rc(s, mid, x, k))
lemma ecNone(s []LineError, lo int, c int, x int, k int) by k trigger(ec(s, lo, c, x, k)): imp(0 <= lo && forall(j, lo, k, ekind(s[j]) != c), ec(s, lo, c, x, k) == 0)
lemma ecmNone(s []LineError, lo int, x int, n string, k int) by k trigger(ecm(s, lo, x, n, k)): imp(0 <= lo && forall(j, lo, k, ekind(s[j]) != 5), ecm(s, lo, x, n, k) == 0)
def errIs(e, L) = dupErr(e, L) || unusedErr(e, L) || unreachErr(e, L) || bjErr(e, L) || loopErr(e, L) || prErr(e, L)
def redIs(e, L) = unusedRed(e, L) || bjRed(e, L)
def allocd(l) = forall(k, 0, len(l.errs), imp(is(l.errs[k], *UnusedLabelError), ref(as(l.errs[k], *UnusedLabelError)) < alloc())) && forall(k, 0, len(l.reds), imp(is(l.reds[k], *RedundantLabelLine), ref(as(l.reds[k], *RedundantLabelLine)) < alloc()))
'''
def clauses(kw,n,one,rkeep,lens):
    """one(c) is the number of rules of kind c that ran"""
    out=""
    for c,nm,cond,_,p in R:
        out+=f"  {kw('ensures '+nm)}forall(x, 0, len(l.l), imp(l.l[x] != nil && {cond}, ec(l.errs, old(len(l.errs)), {c}, x, len(l.errs)) == {one(c)}))\n"
        out+=f"  {kw('ensures no'+nm)}forall(x, 0, len(l.l), imp(l.l[x] != nil && !{cond}, ec(l.errs, old(len(l.errs)), {c}, x, len(l.errs)) == 0))\n"
    out+=f"  {kw('ensures missing')}all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && dcn(l.l, n, len(l.l)) == 0 && {one(6)} == 1, ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == refs(l.l[x], n))))\n"
    out+=f"  {kw('ensures nomissing')}all(n, string, forall(x, 0, len(l.l), imp(l.l[x] != nil && (dcn(l.l, n, len(l.l)) != 0 || {one(6)} == 0), ecm(l.errs, old(len(l.errs)), x, n, len(l.errs)) == 0)))\n"
    out+=f"  {kw('ensures redlabel')}forall(x, 0, len(l.l), imp(l.l[x] != nil && unused(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == {one(2)}))\n"
    out+=f"  {kw('ensures redb')}forall(x, 0, len(l.l), imp(l.l[x] != nil && dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == {one(4)}))\n"
    out+=f"  {kw('ensures nored')}forall(x, 0, len(l.l), imp(l.l[x] != nil && !unused(l.l, x) && !dropB(l.l, x), rc(l.reds, old(len(l.reds)), x, len(l.reds)) == 0))\n"
    return out
ens=lambda w:w+": "
keep='''keep: errKept(l) && errBase(l) && redKept(l) && redBase(l)
kind: forall(k, old(len(l.errs)), len(l.errs), errIs(l.errs[k], l.l))
rkind: forall(k, old(len(l.reds)), len(l.reds), redIs(l.reds[k], l.l))
alloc: allocd(l)'''
M="  modifies l.errs, l.reds, elems(l.errs), elems(l.reds), newelems(LineError), newelems(RedundantLine), new(UnusedLabelError), new(RedundantLabelLine), newelems(int)\n"
o+='''
iface teal.runnableRule.Run(r, l)
  props C02 C03 C04 C05
  requires l != nil && lsOK(l.l)
  requires allocd(l)
'''+"".join("  ensures "+k+"\n" for k in keep.split("\n"))
o+=clauses(ens,None,lambda c:f"ite(rkind(r) == {c}, 1, 0)",None,None)+M+"  flags refine\n"
o+='''
func teal.(*Linter).Lint(l)
  props C02 C03 C04 C05
  requires l != nil && lsOK(l.l)
  requires allocd(l)
'''+"".join("  ensures "+k+"\n" for k in keep.split("\n"))
o+=clauses(ens,None,lambda c:f"rn(LintRules, {c}, len(LintRules))",None,None)+M+"  flags terminates\n"
for k in keep.split("\n"): o+="  invariant "+k.split(": ",1)[1]+"\n"
o+=clauses(lambda w:"invariant <i:idx> ",None,lambda c:f"rn(LintRules, {c}, i)",None,None)
open('contracts/lint_all.vc','w').write(o)
