# C10: semantic token encoding
def stLess(a, b) = a.Line < b.Line || (a.Line == b.Line && a.Index < b.Index)
rec tcnt(s []SemanticToken, x SemanticToken, k int) int = ite(k <= 0, 0, tcnt(s, x, k-1) + ite(s[k-1] == x, 1, 0))
def u32(x) = 0 <= x && x < 4294967296
def stOK(s) = u32(s.Line) && u32(s.Index) && u32(s.Length) && u32(s.Type) && u32(s.Modifiers)

func teal.(SemanticTokens).Len(t) (r)
  props C10
  ensures len: r == len(t)
  modifies nothing

func teal.(SemanticTokens).Less(t, i, j) (r)
  props C10
  requires 0 <= i && i < len(t) && 0 <= j && j < len(t)
  ensures order: iff(r, stLess(t[i], t[j]))
  modifies nothing

func teal.(SemanticTokens).Swap(t, i, j)
  props C10
  requires 0 <= i && i < len(t) && 0 <= j && j < len(t)
  ensures swapped: t[i] == old(t[j]) && t[j] == old(t[i])
  ensures others: forall(k, 0, len(t), imp(k != i && k != j, t[k] == old(t[k])))
  modifies elems(t)

# sort.Sort orders by Less and only swaps (package documentation); Len, Less and Swap are the functions proved above
extern sort.Sort(data)
  requires is(data, SemanticTokens)
  ensures sorted: forall(i, 0, len(as(data, SemanticTokens)), forall(j, 0, i, !stLess(as(data, SemanticTokens)[i], as(data, SemanticTokens)[j])))
  ensures perm: all(x, SemanticToken, tcnt(as(data, SemanticTokens), x, len(as(data, SemanticTokens))) == old(tcnt(as(data, SemanticTokens), x, len(as(data, SemanticTokens)))))
  ensures range: imp(old(forall(i, 0, len(as(data, SemanticTokens)), stOK(as(data, SemanticTokens)[i]))), forall(i, 0, len(as(data, SemanticTokens)), stOK(as(data, SemanticTokens)[i])))
  modifies elems(as(data, SemanticTokens))

rec ext*5 dline(r []uint32, k int) int = ite(k <= 0, 0, dline(r, k-1) + r[5*k-5])
rec ext*5 dcol(r []uint32, k int) int = ite(k <= 0, 0, ite(r[5*k-5] == 0, dcol(r, k-1), 0) + r[5*k-4])

func teal.(SemanticTokens).Encode(t) (r)
  props C10
  requires forall(i, 0, len(t), stOK(t[i]))
  ensures five: len(r) == 5*len(t)
  ensures order: forall(i, 0, len(t), forall(j, 0, i, !stLess(t[i], t[j])))
  ensures same: all(x, SemanticToken, tcnt(t, x, len(t)) == old(tcnt(t, x, len(t))))
  ensures line: forall(k, 0, len(t), dline(r, k+1) == t[k].Line)
  ensures col: forall(k, 0, len(t), dcol(r, k+1) == t[k].Index)
  ensures rest: forall(k, 0, len(t), r[5*k+2] == t[k].Length && r[5*k+3] == t[k].Type && r[5*k+4] == t[k].Modifiers)
  modifies elems(t)
  flags terminates
  invariant <i:idx, j:!int> j == 5*i
  invariant <i:idx, p:SemanticToken> ite(i == 0, p.Line == 0 && p.Index == 0, p == t[i-1])
  invariant <i:idx, r:[]uint32> forall(k, 0, i, r[5*k+2] == t[k].Length && r[5*k+3] == t[k].Type && r[5*k+4] == t[k].Modifiers)
  invariant <i:idx, p:SemanticToken, r:[]uint32> dline(r, i) == p.Line && dcol(r, i) == p.Index
  invariant <i:idx, r:[]uint32> forall(k, 0, i, dline(r, k+1) == t[k].Line)
  invariant <i:idx, r:[]uint32> forall(k, 0, i, dcol(r, k+1) == t[k].Index)
  invariant <i:idx, r:![]uint32> len(r) == 5*i
  invariant <i:idx, a:!int> a == ite(i == 0, 0, t[i-1].Line)
  invariant <i:idx, a:!int> a == ite(i == 0, 0, t[i-1].Index)
  invariant <i:idx, r:[]uint32> dline(r, i) == ite(i == 0, 0, t[i-1].Line) && dcol(r, i) == ite(i == 0, 0, t[i-1].Index)
