# C01: tokens are the source text at the position they report.
# Ghost functions over the source bytes S:
#   ln(S,k)  number of line ends ("\r", "\n" or "\r\n") completed in S[0:k]
#   lb(S,k)  offset of the start of the line that offset k lies in
#   esc(S,a,k)  in a string opened at a, byte k is escaped (byte k-1 is an unescaped backslash)
def eolb(c) = c == 10 || c == 13
def blankb(c) = c == 32 || c == 9
rec ln(S []byte, k int) int = ite(k <= 0, 0, ln(S, k-1) + ite(S[k-1] == 13 || (S[k-1] == 10 && !(k >= 2 && S[k-2] == 13)), 1, 0))
rec lb(S []byte, k int) int = ite(k <= 0, 0, ite(eolb(S[k-1]), k, lb(S, k-1)))
rec esc(S []byte, a int, k int) bool = ite(k <= a+1, false, S[k-1] == 92 && !esc(S, a, k-1))
def noEol(S, a, b) = forall(j, a, b, !eolb(S[j]))
def noTerm(S, a, b) = forall(j, a, b, !eolb(S[j]) && !blankb(S[j]))
def blanks(S, a, b) = forall(j, a, b, blankb(S[j]))
lemma sameLine(S []byte, a int, b int) by b trigger(ln(S, a), ln(S, b)): imp(0 <= a && a <= b && noEol(S, a, b), ln(S, a) == ln(S, b))
lemma sameLineB(S []byte, a int, b int) by b trigger(lb(S, a), lb(S, b)): imp(0 <= a && a <= b && noEol(S, a, b), lb(S, a) == lb(S, b))
lemma lbLe(S []byte, k int) by k trigger(lb(S, k)): imp(0 <= k, 0 <= lb(S, k) && lb(S, k) <= k)
lemma lnPos(S []byte, k int) by k trigger(ln(S, k)): 0 <= ln(S, k)

# the kinds of text a token can stand for, decided by the first bytes at a
def isEolAt(S, a) = eolb(S[a])
def isComAt(S, a) = S[a] == 47 && a+1 < len(S) && S[a+1] == 47
def isStrAt(S, a) = S[a] == 34
def eolTok(S, t, a, e) = t.t == "EOL" && e == a + ite(S[a] == 13 && a+1 < len(S) && S[a+1] == 10, 2, 1) && t.v == sub(S, a, e)
def comTok(S, t, a, e) = t.t == "Comment" && e >= a+2 && noEol(S, a, e) && (e == len(S) || eolb(S[e])) && t.v == sub(S, a+2, e)
def valTok(S, t, a, e) = t.t == "Value" && noTerm(S, a, e) && (e == len(S) || eolb(S[e]) || blankb(S[e])) && t.v == sub(S, a, e)
def closed(S, a, e) = e >= a+2 && S[e-1] == 34 && !esc(S, a, e-1)
def strBody(S, a, e) = noEol(S, a, e) && forall(j, a+1, e-1, !(S[j] == 34 && !esc(S, a, j)))
def strTok(S, t, a, e) = t.t == "Value" && strBody(S, a, e) && ite(closed(S, a, e), t.v == "\"" + ext("strings.ReplaceAll", string, sub(S, a+1, e-1), "\\\"", "\"") + "\"", (e == len(S) || eolb(S[e])) && t.v == sub(S, a, e))
def tokTextAt(S, t, a, e) = ite(isEolAt(S, a), eolTok(S, t, a, e), ite(isComAt(S, a), comTok(S, t, a, e), ite(isStrAt(S, a), strTok(S, t, a, e), valTok(S, t, a, e))))
# token t is the next token after offset i0 and ends at i1
rec tok(S []byte, t Token, i0 int, i1 int) bool = i0 <= i1-(t.e-t.b) && i1-(t.e-t.b) < i1 && i1 <= len(S) && blanks(S, i0, i1-(t.e-t.b)) && !blankb(S[i1-(t.e-t.b)]) && t.l == ln(S, i1-(t.e-t.b)) && t.b == i1-(t.e-t.b)-lb(S, i1-(t.e-t.b)) && tokTextAt(S, t, i1-(t.e-t.b), i1)

def LBnd(z) = 0 <= z.i && z.i <= len(z.Source) && z.p == z.i && 0 <= z.tsi && z.tsi <= len(z.ts)
def LLine(z) = z.l == ln(z.Source, z.i)
def LCol(z) = z.lb == lb(z.Source, z.i) && z.li == z.i - z.lb
def LCr(z) = !(0 < z.i && z.i < len(z.Source) && z.Source[z.i-1] == 13 && z.Source[z.i] == 10)
def LInv(z) = LBnd(z) && LLine(z) && LCol(z) && LCr(z)
# an unterminated string token
def openStr(S, t, i1) = S[i1-(t.e-t.b)] == 34 && !closed(S, i1-(t.e-t.b), i1)

extern unicode/utf8.DecodeRune(p) (r, n)
  ensures 0 <= n && n <= 4 && n <= len(p) && imp(len(p) > 0, n >= 1) && imp(len(p) == 0, n == 0)
  ensures imp(len(p) > 0 && p[0] < 128, r == p[0] && n == 1)
  ensures imp(len(p) > 0 && p[0] >= 128, r >= 128 && imp(n >= 2, p[1] >= 128) && imp(n >= 3, p[2] >= 128) && imp(n >= 4, p[3] >= 128))
  modifies nothing

def tokShape(t) = 0 <= t.b && t.b < t.e && (t.t == "EOL" || t.t == "Comment" || t.t == "Value") && imp(t.t == "Value", len(t.v) > 0)
func teal.(*Lexer).Scan(z) (r)
  props C01 C02
  requires z != nil && LInv(z)
  ensures bounds: LBnd(z)
  ensures line: LLine(z)
  ensures column: LCol(z)
  ensures crlf: LCr(z)
  ensures result: iff(r, len(z.ts) > z.tsi)
  ensures source: z.Source == old(z.Source) && forall(k, 0, len(z.Source), z.Source[k] == old(z.Source[k]))
  ensures keep: old(len(z.ts)) <= len(z.ts) && len(z.ts) <= old(len(z.ts)) + 1 && forall(k, 0, old(len(z.ts)), z.ts[k] == old(z.ts[k]))
  ensures advance: z.tsi == old(z.tsi) + ite(old(len(z.ts)) > old(z.tsi), 1, 0)
  ensures buffered: imp(old(len(z.ts)) > old(z.tsi)+1, z.i == old(z.i) && len(z.ts) == old(len(z.ts)) && len(z.diag) == old(len(z.diag)))
  ensures token: imp(len(z.ts) > old(len(z.ts)), tok(z.Source, z.ts[old(len(z.ts))], old(z.i), z.i))
  ensures linestart: imp(len(z.ts) > old(len(z.ts)), z.i == old(z.lb) + z.ts[old(len(z.ts))].e && z.lb == ite(z.ts[old(len(z.ts))].t == "EOL", z.i, old(z.lb)))
  ensures newline: imp(len(z.ts) > old(len(z.ts)), z.ts[old(len(z.ts))].l == old(z.l) && z.l == old(z.l) + ite(z.ts[old(len(z.ts))].t == "EOL", 1, 0))
  ensures shape: imp(len(z.ts) > old(len(z.ts)), tokShape(z.ts[old(len(z.ts))]))
  ensures end: imp(old(len(z.ts)) <= old(z.tsi)+1 && len(z.ts) == old(len(z.ts)), z.i == len(z.Source) && blanks(z.Source, old(z.i), z.i) && len(z.diag) == old(len(z.diag)))
  ensures error: imp(len(z.ts) > old(len(z.ts)), len(z.diag) == old(len(z.diag)) + ite(openStr(z.Source, z.ts[old(len(z.ts))], z.i), 1, 0))
  ensures errorpos: imp(len(z.diag) > old(len(z.diag)), z.diag[old(len(z.diag))].l == z.ts[old(len(z.ts))].l && z.diag[old(len(z.diag))].li == z.ts[old(len(z.ts))].e)
  ensures olderrors: forall(k, 0, old(len(z.diag)), z.diag[k] == old(z.diag[k]))
  ensures tsbase: base(z.ts) == old(base(z.ts)) || fresh(z.ts)
  ensures diagbase: base(z.diag) == old(base(z.diag)) || fresh(z.diag)
  modifies z.p, z.i, z.l, z.lb, z.li, z.ts, z.tsi, z.diag, elems(z.ts), elems(z.diag), newelems(Token), newelems(lexerError)
  flags terminates
  invariant 0 <= z.p && z.p <= z.i && z.i <= len(z.Source)
  invariant z.l == pre(z.l)
  invariant z.l == ln(z.Source, z.i) && z.lb == lb(z.Source, z.i) && z.li == z.i - z.lb
  invariant z.p == z.i
  invariant z.p + 1 <= z.i
  invariant old(z.i) <= z.p && blanks(z.Source, old(z.i), z.p)
  invariant noEol(z.Source, z.p, z.i)
  invariant noTerm(z.Source, z.p, z.i)
  invariant forall(j, z.p+1, z.i, !(z.Source[j] == 34 && !esc(z.Source, z.p, j)))
  invariant <x:!rune> iff(x == 92, esc(z.Source, z.p, z.i))
  invariant <x:!bool> iff(x, esc(z.Source, z.p, z.i))
  invariant imp(z.i - z.p >= 1, z.Source[z.p] == 47)
  invariant imp(z.i - z.p >= 2, z.Source[z.p+1] == 47)
  decreases len(z.Source) - z.i

func teal.(*Lexer).Curr(z) (t)
  props C01 C02
  requires z != nil && 0 <= z.tsi && z.tsi <= len(z.ts)
  ensures cur: imp(z.tsi < len(z.ts), t == z.ts[z.tsi])
  modifies nothing

func teal.(*Lexer).Return(z) (r)
  props C01 C02
  requires z != nil && LInv(z)
  ensures back: iff(r, old(z.tsi) > 0) && z.tsi == ite(r, old(z.tsi)-1, old(z.tsi)) && LInv(z)
  modifies z.tsi

# offsets recovered from the token list alone: line start and end of the k-th token
rec ext lstart(ts []Token, k int) int = ite(k <= 0, 0, ite(ts[k-1].t == "EOL", lstart(ts, k-1) + ts[k-1].e, lstart(ts, k-1)))
rec ext tend(ts []Token, k int) int = ite(k <= 0, 0, lstart(ts, k-1) + ts[k-1].e)

# number of line ends among the first k tokens, and lines they make up
rec ext eols(ts []Token, k int) int = ite(k <= 0, 0, eols(ts, k-1) + ite(ts[k-1].t == "EOL", 1, 0))
lemma eolsPos(ts []Token, k int) by k trigger(eols(ts, k)): eols(ts, k) >= 0
def nlines(ts) = eols(ts, len(ts)) + ite(len(ts) > 0 && ts[len(ts)-1].t != "EOL", 1, 0)
func teal.readTokens(source) (ts, diags)
  props C01 C02 C03
  ensures line: forall(k, 0, len(ts), ts[k].l == eols(ts, k))
  ensures shape: forall(k, 0, len(ts), tokShape(ts[k]))
  ensures comment: forall(k, 1, len(ts), imp(ts[k-1].t == "Comment", ts[k].t == "EOL"))
  ensures diags: forall(k, 0, len(diags), is(diags[k], lexerError) && 0 <= as(diags[k], lexerError).l && as(diags[k], lexerError).l < nlines(ts))
  ensures fresh: (base(ts) == 0 || fresh(ts)) && (base(diags) == 0 || fresh(diags))
  internal source: str(local(*Lexer).Source) == source
  internal tokens: forall(k, 0, len(ts), tok(local(*Lexer).Source, ts[k], tend(ts, k), tend(ts, k+1)))
  internal rest: blanks(local(*Lexer).Source, tend(ts, len(ts)), len(local(*Lexer).Source))
  internal errors: len(diags) == len(local(*Lexer).diag) && forall(k, 0, len(diags), diags[k] == box(local(*Lexer).diag[k], lexerError))
  modifies nothing
  flags terminates
  invariant <z:*Lexer, ts:![]Token> LInv(z)
  invariant <z:*Lexer> fresh(z.ts) || base(z.ts) == 0
  invariant <z:*Lexer> fresh(z.diag) || base(z.diag) == 0
  invariant <z:*Lexer, ts:![]Token> base(z.ts) != base(ts)
  invariant <z:*Lexer, ts:![]Token> len(ts) == len(z.ts) && z.tsi == ite(len(ts) == 0, 0, len(ts)-1)
  invariant <z:*Lexer, ts:![]Token> forall(k, 0, len(ts), ts[k] == z.ts[k])
  invariant <z:*Lexer, ts:![]Token> z.lb == lstart(ts, len(ts)) && z.i == tend(ts, len(ts))
  invariant <z:*Lexer> str(z.Source) == source
  invariant <z:*Lexer, ts:![]Token> z.l == eols(ts, len(ts))
  invariant <ts:![]Token> forall(k, 0, len(ts), ts[k].l == eols(ts, k) && tokShape(ts[k]))
  invariant <z:*Lexer, ts:![]Token> forall(k, 0, len(z.diag), 0 <= z.diag[k].l && z.diag[k].l < nlines(ts))
  invariant <z:*Lexer, ts:![]Token> forall(k, 0, len(ts), tok(z.Source, ts[k], tend(ts, k), tend(ts, k+1)))
  invariant <i:idx, e:[]lexerError, d:[]Diagnostic> forall(j, 0, i, d[j] == box(e[j], lexerError))
  decreases <z:*Lexer> len(z.Source) - z.i
