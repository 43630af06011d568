# C14: building programs
# the instructions an expression contains, in order: a list contains those of its items, an instruction itself.
# (cntE, itemE, okE exist for every finite expression tree; flatOK states their defining equations)
specfn cntE(e Expr) int
specfn itemE(e Expr, p int) Op
specfn okE(e Expr) bool
rec sumN(s []Expr, k int) int = ite(k <= 0, 0, sumN(s, k-1) + cntE(s[k-1]))
rec itemS(s []Expr, p int, k int) Op = ite(k <= 0, itemE(s[0], p), ite(p >= sumN(s, k-1), itemE(s[k-1], p - sumN(s, k-1)), itemS(s, p, k-1)))
lemma sumN1(s []Expr, k int) by k trigger(sumN(s, k)): imp(k == 0, sumN(s, k) == 0) && imp(k == 1, sumN(s, k) == cntE(s[0]))
lemma itemS1(s []Expr, p int, k int) by k trigger(itemS(s, p, k)): imp(k == 1 && p >= 0, itemS(s, p, k) == itemE(s[0], p))
def isList(e) = is(e, []Expr)
def isComplex(e) = !isList(e) && impl(e, complexExpr)
def isOp(e) = !isList(e) && !isComplex(e) && impl(e, Op)
# lists that exist when building starts (allocated before bound0) contain only such lists
specfn bound0() int
def oldE(e) = imp(isList(e), base(as(e, []Expr)) < bound0())
def oldS(s) = forall(j, 0, len(s), oldE(s[j]))
def flatOK() = bound0() <= alloc() && all(e, Expr, cntE(e) >= 0 && imp(isList(e) && oldE(e), oldS(as(e, []Expr)) && cntE(e) == sumN(as(e, []Expr), len(as(e, []Expr))) && iff(okE(e), forall(j, 0, len(as(e, []Expr)), okE(as(e, []Expr)[j]))) && forall(p, 0, cntE(e), itemE(e, p) == itemS(as(e, []Expr), p, len(as(e, []Expr))))) && imp(isComplex(e), okE(e)) && imp(isOp(e), okE(e) && cntE(e) == 1 && itemE(e, 0) == asI(e, Op)) && imp(!isList(e) && !isComplex(e) && !isOp(e), !okE(e)))

# no type of this repository is a complexExpr: what one compiles to is its contents
iface teal.complexExpr.Compile(e, c) (r)
  ensures contents: len(r) == cntE(e) && forall(p, 0, len(r), r[p] == itemE(e, p))
  modifies nothing

def flatInto(res, to, s) = len(res) == len(to) + sumN(s, len(s)) && forall(k, 0, len(to), res[k] == old(to[k])) && forall(p, 0, sumN(s, len(s)), res[len(to)+p] == itemS(s, p, len(s)))
def allOK(s) = forall(k, 0, len(s), okE(s[k]))

func teal.(*compiler).compile(c, to, exprs) (r)
  props C14
  requires flatOK() && oldS(exprs)
  ensures count: len(r) == len(to) + sumN(exprs, len(exprs))
  ensures before: forall(k, 0, len(to), r[k] == old(to[k]))
  ensures items: forall(q, len(to), len(r), r[q] == itemS(exprs, q-len(to), len(exprs)))
  ensures ok: allOK(exprs)
  ensures store: base(r) == base(to) || fresh(r)
  panics unsupported: !allOK(exprs)
  modifies elems(to), newelems(Op), newelems(Expr)
  invariant <i:idx, t:![]Op> len(t) == len(to) + sumN(exprs, i)
  invariant <i:idx, t:![]Op> forall(q, len(to), len(t), t[q] == itemS(exprs, q-len(to), i))
  invariant <t:![]Op> forall(k, 0, len(to), t[k] == old(to[k]))
  invariant <t:![]Op> len(t) >= len(to)
  invariant <t:![]Op> base(t) == base(to) || fresh(t)
  invariant <i:idx> forall(k, 0, i, okE(exprs[k]))
  invariant <i:idx, t:![]Op, s:[]Expr, o:oidx> o < len(exprs) && is(exprs[o], []Expr) && as(exprs[o], []Expr) == s && len(t) == len(to) + sumN(exprs, o) + sumN(s, i)
  invariant <i:idx, t:![]Op, s:[]Expr, o:oidx> forall(q, len(to), len(to)+sumN(exprs, o), t[q] == itemS(exprs, q-len(to), o))
  invariant <i:idx, t:![]Op, s:[]Expr, o:oidx> forall(q, len(to)+sumN(exprs, o), len(t), t[q] == itemS(s, q-len(to)-sumN(exprs, o), i))
  invariant <i:idx, s:[]Expr> forall(k, 0, i, okE(s[k]))

func teal.(Program).Compile(p, c) (r)
  props C14
  requires flatOK() && oldS(p)
  ensures count: len(r) == sumN(p, len(p))
  ensures items: forall(q, 0, len(r), r[q] == itemS(p, q, len(p)))
  ensures ok: allOK(p)
  panics unsupported: !allOK(p)
  modifies newelems(Op), newelems(Expr)
  invariant <i:idx, t:!Listing> len(t) == sumN(p, i)
  invariant <i:idx, t:!Listing> forall(q, 0, len(t), t[q] == itemS(p, q, i))
  invariant <t:!Listing> base(t) == 0 || fresh(t)
  invariant <i:idx> forall(k, 0, i, okE(p[k]))

func teal.Compile(exprs) (r)
  props C14
  requires flatOK() && oldS(exprs) && base(exprs) < bound0()
  ensures count: len(r) == sumN(exprs, len(exprs))
  ensures items: forall(q, 0, len(r), r[q] == itemS(exprs, q, len(exprs)))
  ensures ok: allOK(exprs)
  panics unsupported: !allOK(exprs)
  modifies newelems(Op), newelems(Expr)

# printed text: each instruction's own text and a newline
rec tlen(L []Op, k int) int = ite(k <= 0, 0, tlen(L, k-1) + len(L[k-1].String()) + 1)
rec tch(L []Op, p int, k int) int = ite(k <= 0, 0, ite(p >= tlen(L, k-1), ite(p - tlen(L, k-1) == len(L[k-1].String()), 10, L[k-1].String()[p-tlen(L, k-1)]), tch(L, p, k-1)))

extern (*strings.Builder).WriteString(b, s) (n, err)
  requires b != nil
  ensures len(b.buf) == old(len(b.buf)) + len(s)
  ensures forall(k, 0, old(len(b.buf)), b.buf[k] == old(b.buf[k]))
  ensures forall(k, old(len(b.buf)), len(b.buf), b.buf[k] == s[k-old(len(b.buf))])
  ensures base(b.buf) == old(base(b.buf)) || fresh(b.buf)
  modifies b.buf, b.addr, elems(b.buf), newelems(byte)
extern (*strings.Builder).String(b) (r)
  requires b != nil
  ensures len(r) == len(b.buf) && forall(k, 0, len(r), r[k] == b.buf[k])
  modifies nothing
# the text of an instruction depends on the instruction alone
iface teal.Op.String(x) (r)
  flags pure

func teal.(Listing).String(l) (r)
  props C14
  requires forall(k, 0, len(l), l[k] != nil)
  ensures length: len(r) == tlen(l, len(l))
  ensures text: forall(p, 0, len(r), r[p] == tch(l, p, len(l)))
  invariant <i:idx> len(local(*strings.Builder).buf) == tlen(l, i)
  invariant <i:idx> forall(p, 0, len(local(*strings.Builder).buf), local(*strings.Builder).buf[p] == tch(l, p, i))
