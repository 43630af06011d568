# C08: symbol tables and lookups
# ranges overlap when they share a line and their column intervals touch
def ovl(a, b) = a.StartCharacter() <= b.EndCharacter() && b.StartCharacter() <= a.EndCharacter() && a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
def tovl(t, b) = t.b <= b.EndCharacter() && b.StartCharacter() <= t.e && t.l <= b.EndLine() && b.StartLine() <= t.l

rec ext nName(s []Symbol, name string, k int) int = ite(k <= 0, 0, nName(s, name, k-1) + ite(s[k-1].Name() == name, 1, 0))
rec ext nRef(s []Token, name string, k int) int = ite(k <= 0, 0, nRef(s, name, k-1) + ite(s[k-1].v == name, 1, 0))
rec ext nOvl(s []Symbol, rg Range, k int) int = ite(k <= 0, 0, nOvl(s, rg, k-1) + ite(ovl(rg, s[k-1]), 1, 0))
rec ext nTOvl(s []Token, rg Range, k int) int = ite(k <= 0, 0, nTOvl(s, rg, k-1) + ite(tovl(s[k-1], rg), 1, 0))

lemma noOvl(s []Token, rg Range, k int) by k trigger(nTOvl(s, rg, k)): imp(forall(j, 0, k, !tovl(s[j], rg)), nTOvl(s, rg, k) == 0)

lemma ovlPos(s []Token, rg Range, k int) by k trigger(nTOvl(s, rg, k)): 0 <= nTOvl(s, rg, k)
lemma ovlMono(s []Token, rg Range, k int, n int) by n trigger(nTOvl(s, rg, k), nTOvl(s, rg, n)): imp(0 <= k && k <= n, nTOvl(s, rg, k) <= nTOvl(s, rg, n) && imp(k < n && tovl(s[k], rg), nTOvl(s, rg, k) < nTOvl(s, rg, n)))

func teal.Overlaps(a, b) (r)
  props C08
  requires a != nil && b != nil
  ensures overlap: iff(r, ovl(a, b))
  modifies nothing
  flags inline

func teal.(ProcessResult).SymByName(r, name) (res)
  props C08
  requires forall(i, 0, len(r.Symbols), r.Symbols[i] != nil)
  ensures count: len(res) == nName(r.Symbols, name, len(r.Symbols))
  ensures order: forall(i, 0, len(r.Symbols), imp(r.Symbols[i].Name() == name, res[nName(r.Symbols, name, i)] == r.Symbols[i]))
  modifies nothing
  flags terminates
  invariant <i:idx, s:![]Symbol> len(s) == nName(r.Symbols, name, i)
  invariant <i:idx, s:![]Symbol> forall(j, 0, i, imp(r.Symbols[j].Name() == name, 0 <= nName(r.Symbols, name, j) && nName(r.Symbols, name, j) < len(s) && s[nName(r.Symbols, name, j)] == r.Symbols[j]))

func teal.(ProcessResult).SymRefByName(r, name) (res)
  props C08
  ensures count: len(res) == nRef(r.SymbolRefs, name, len(r.SymbolRefs))
  ensures order: forall(i, 0, len(r.SymbolRefs), imp(r.SymbolRefs[i].v == name, res[nRef(r.SymbolRefs, name, i)] == r.SymbolRefs[i]))
  modifies nothing
  flags terminates
  invariant <i:idx, s:![]Token> len(s) == nRef(r.SymbolRefs, name, i)
  invariant <i:idx, s:![]Token> forall(j, 0, i, imp(r.SymbolRefs[j].v == name, 0 <= nRef(r.SymbolRefs, name, j) && nRef(r.SymbolRefs, name, j) < len(s) && s[nRef(r.SymbolRefs, name, j)] == r.SymbolRefs[j]))

func teal.(ProcessResult).SymbolsWithin(r, rg) (res)
  props C08
  requires rg != nil && forall(i, 0, len(r.Symbols), r.Symbols[i] != nil)
  ensures count: len(res) == nOvl(r.Symbols, rg, len(r.Symbols))
  ensures order: forall(i, 0, len(r.Symbols), imp(ovl(rg, r.Symbols[i]), res[nOvl(r.Symbols, rg, i)] == r.Symbols[i]))
  modifies nothing
  flags terminates
  invariant <i:idx, s:![]Symbol> len(s) == nOvl(r.Symbols, rg, i)
  invariant <i:idx, s:![]Symbol> forall(j, 0, i, imp(ovl(rg, r.Symbols[j]), 0 <= nOvl(r.Symbols, rg, j) && nOvl(r.Symbols, rg, j) < len(s) && s[nOvl(r.Symbols, rg, j)] == r.Symbols[j]))

func teal.(ProcessResult).SymbolRefsWithin(r, rg) (res)
  props C08
  requires rg != nil
  ensures count: len(res) == nTOvl(r.SymbolRefs, rg, len(r.SymbolRefs))
  ensures order: forall(i, 0, len(r.SymbolRefs), imp(tovl(r.SymbolRefs[i], rg), res[nTOvl(r.SymbolRefs, rg, i)] == r.SymbolRefs[i]))
  modifies nothing
  flags terminates
  invariant <i:idx, s:![]Token> len(s) == nTOvl(r.SymbolRefs, rg, i)
  invariant <i:idx, s:![]Token> forall(j, 0, i, imp(tovl(r.SymbolRefs[j], rg), 0 <= nTOvl(r.SymbolRefs, rg, j) && nTOvl(r.SymbolRefs, rg, j) < len(s) && s[nTOvl(r.SymbolRefs, rg, j)] == r.SymbolRefs[j]))

func teal.(ProcessResult).SymOrRefAt(r, rg) (res)
  props C08
  requires rg != nil && forall(i, 0, len(r.Symbols), r.Symbols[i] != nil)
  ensures sym: forall(i, 0, len(r.Symbols), imp(ovl(rg, r.Symbols[i]) && forall(j, 0, i, !ovl(rg, r.Symbols[j])), res == r.Symbols[i].Name()))
  ensures ref: imp(forall(j, 0, len(r.Symbols), !ovl(rg, r.Symbols[j])), forall(i, 0, len(r.SymbolRefs), imp(tovl(r.SymbolRefs[i], rg) && forall(j, 0, i, !tovl(r.SymbolRefs[j], rg)), res == r.SymbolRefs[i].v)))
  ensures none: imp(forall(j, 0, len(r.Symbols), !ovl(rg, r.Symbols[j])) && forall(j, 0, len(r.SymbolRefs), !tovl(r.SymbolRefs[j], rg)), res == "")
  modifies nothing
  flags terminates
  invariant <i:idx> forall(j, 0, i, !ovl(rg, r.Symbols[j]))
  invariant <i:idx> forall(j, 0, i, !tovl(r.SymbolRefs[j], rg))

func teal.(ProcessResult).SymbolsForRefWithin(r, rg) (res)
  props C08
  requires rg != nil && forall(i, 0, len(r.Symbols), r.Symbols[i] != nil)
  ensures none: imp(forall(j, 0, len(r.SymbolRefs), !tovl(r.SymbolRefs[j], rg)), len(res) == 0)
  ensures count: forall(k, 0, len(r.SymbolRefs), imp(tovl(r.SymbolRefs[k], rg) && forall(j, 0, k, !tovl(r.SymbolRefs[j], rg)), len(res) == nName(r.Symbols, r.SymbolRefs[k].v, len(r.Symbols))))
  ensures order: forall(k, 0, len(r.SymbolRefs), imp(tovl(r.SymbolRefs[k], rg) && forall(j, 0, k, !tovl(r.SymbolRefs[j], rg)), forall(i, 0, len(r.Symbols), imp(r.Symbols[i].Name() == r.SymbolRefs[k].v, res[nName(r.Symbols, r.SymbolRefs[k].v, i)] == r.Symbols[i]))))
  modifies nothing
  flags terminates
  invariant <i:idx, s:![]Symbol, n:string> len(s) == nName(r.Symbols, n, i)
  invariant <i:idx, s:![]Symbol, n:string> forall(j, 0, i, imp(r.Symbols[j].Name() == n, 0 <= nName(r.Symbols, n, j) && nName(r.Symbols, n, j) < len(s) && s[nName(r.Symbols, n, j)] == r.Symbols[j]))
  invariant <i:idx, s:![]Symbol, n:Token> len(s) == nName(r.Symbols, n.v, i)
  invariant <i:idx, s:![]Symbol, n:Token> forall(j, 0, i, imp(r.Symbols[j].Name() == n.v, 0 <= nName(r.Symbols, n.v, j) && nName(r.Symbols, n.v, j) < len(s) && s[nName(r.Symbols, n.v, j)] == r.Symbols[j]))
