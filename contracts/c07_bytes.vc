# C07: byte immediates are stored as exactly the bytes they denote
def sameBytes(a, b) = len(a) == len(b) && forall(k, 0, len(a), a[k] == b[k])

# quoted text: the unit (plain byte or escape sequence) at position p, up to the closing quote at e
def ulen(s, p) = ite(s[p] != '\\', 1, ite(s[p+1] == 'x', 4, 2))
def plainEsc(c) = c == 'n' || c == 'r' || c == 't' || c == '\\' || c == '"'
def uok(s, p, e) = s[p] != '\\' || (p + 1 < e && (plainEsc(s[p+1]) || (s[p+1] == 'x' && p + 4 <= e && okU(s[p+2:p+4], 16, 8))))
def ubyte(s, p) = ite(s[p] != '\\', s[p], ite(s[p+1] == 'n', 10, ite(s[p+1] == 'r', 13, ite(s[p+1] == 't', 9, ite(s[p+1] == 'x', uval(s[p+2:p+4], 16, 8), s[p+1])))))
rec upos(s string, k int) int = ite(k <= 0, 1, upos(s, k-1) + ulen(s, upos(s, k-1)))
rec litOK(s string, p int, e int) bool = ite(p >= e, p == e, uok(s, p, e) && litOK(s, p + ulen(s, p), e))

func teal.parseStringLiteral(s) (r, err)
  props C07
  requires len(s) >= 2
  ensures accept: iff(err == nil, s[0] == '"' && s[len(s)-1] == '"' && litOK(s, 1, len(s)-1))
  ensures whole: imp(err == nil, upos(s, len(r)) == len(s) - 1)
  ensures bytes: imp(err == nil, forall(k, 0, len(r), r[k] == ubyte(s, upos(s, k))))
  ensures fresh: base(r) == 0 || fresh(r)
  modifies newelems(byte)
  flags terminates
  invariant <r:[]byte> fresh(r)
  invariant <r:[]byte> forall(k, 0, len(r), r[k] == ubyte(s, upos(s, k)))
  invariant <r:[]byte> iff(litOK(s, 1, len(s)-1), litOK(s, upos(s, len(r)), len(s)-1))
  invariant <i:idx, r:[]byte, x:!bool, y:!bool> i == upos(s, len(r)) + ite(x, 1, ite(y, 2, 0))
  invariant <i:idx> 1 <= i && i <= len(s) - 1
  invariant <i:idx, x:!bool> imp(x, s[i-1] == '\\')
  invariant <i:idx, x:!bool, y:!bool> imp(x && !y, i >= 2)
  invariant <i:idx, y:!bool> imp(y, i >= 3 && s[i-1] == 'x' && s[i-2] == '\\')
  invariant <x:!bool, y:!bool> !(x && y)

# base32 without padding, else with standard padding
def noPad(s) = ext("(encoding/base32.Encoding).WithPadding", int, *base32.StdEncoding, -1)
def okB32n(s) = ext("(*encoding/base32.Encoding).DecodeString#1", error, noPad(s), s) == nil
def okB32p(s) = ext("(*encoding/base32.Encoding).DecodeString#1", error, base32.StdEncoding, s) == nil
def okB32(s) = okB32n(s) || okB32p(s)
def isB32(r, s) = ite(okB32n(s), sameBytes(r, ext("(*encoding/base32.Encoding).DecodeString", []byte, noPad(s), s)), sameBytes(r, ext("(*encoding/base32.Encoding).DecodeString", []byte, base32.StdEncoding, s)))

func teal.base32DecodeAnyPadding(x) (r, err)
  props C07
  ensures accept: iff(err == nil, okB32(x))
  ensures bytes: imp(err == nil, isB32(r, x))
  ensures fresh: base(r) == 0 || fresh(r)
  modifies newelems(byte)
  flags inline

def okB64(s) = ext("(*encoding/base64.Encoding).DecodeString#1", error, base64.StdEncoding, s) == nil
def isB64(r, s) = sameBytes(r, ext("(*encoding/base64.Encoding).DecodeString", []byte, base64.StdEncoding, s))
def okHex(s) = ext("encoding/hex.DecodeString#1", error, s) == nil
def isHex(r, s) = sameBytes(r, ext("encoding/hex.DecodeString", []byte, s))

# the forms of a byte immediate: s is its first text, t the next one on the line (if more)
def pfx(s, p) = ext("strings.HasPrefix", bool, s, p)
def pf32(s) = pfx(s, "base32(") || pfx(s, "b32(")
def pf64(s) = pfx(s, "base64(") || pfx(s, "b64(")
def kw32(s) = s == "base32" || s == "b32"
def kw64(s) = s == "base64" || s == "b64"
def ixr(s, r) = ext("strings.IndexRune", int, s, r)
def par(s) = s[ixr(s, '(')+1:ixr(s, ')')]
def quoted(s) = len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"'
def isLit(r, s) = upos(s, len(r)) == len(s) - 1 && forall(k, 0, len(r), r[k] == ubyte(s, upos(s, k)))
rec bKind(s string) int = ite(pf32(s), 1, ite(pf64(s), 2, ite(pfx(s, "0x"), 3, ite(kw32(s), 4, ite(kw64(s), 5, ite(quoted(s), 6, 0))))))
rec bOK(s string, more bool, t string) bool = ite(bKind(s) == 1, ixr(s, ')') != -1 && okB32(par(s)), ite(bKind(s) == 2, ixr(s, ')') != -1 && okB64(par(s)), ite(bKind(s) == 3, okHex(s[2:]), ite(bKind(s) == 4, more && okB32(t), ite(bKind(s) == 5, more && okB64(t), bKind(s) == 6 && litOK(s, 1, len(s)-1))))))
def bIs(r, s, t) = ite(bKind(s) == 1, isB32(r, par(s)), ite(bKind(s) == 2, isB64(r, par(s)), ite(bKind(s) == 3, isHex(r, s[2:]), ite(bKind(s) == 4, isB32(r, t), ite(bKind(s) == 5, isB64(r, t), isLit(r, s))))))
def bUsed(s) = ite(bKind(s) == 4 || bKind(s) == 5, 1, 0)

# a list of byte immediates: the last n texts of the line all parse; the k-th value starts at text bpos
rec ext all bAll(ts []Token, n int) bool = n <= 0 || (n <= len(ts) && bOK(ts[len(ts)-n].v, n > 1, ite(n > 1, ts[len(ts)-n+1].v, "")) && bAll(ts, n-1-bUsed(ts[len(ts)-n].v)))
rec ext all bpos(ts []Token, i int, k int) int = ite(k <= 0, i, ite(0 <= bpos(ts, i, k-1) && bpos(ts, i, k-1) < len(ts), bpos(ts, i, k-1) + 1 + bUsed(ts[bpos(ts, i, k-1)].v), bpos(ts, i, k-1)))
lemma bposGE(ts []Token, i int, k int) by k trigger(bpos(ts, i, k)): bpos(ts, i, k) >= i
def bAt(r, ts, p) = bIs(r, ts[p].v, ts[p+1].v)
rec ext all uAll(ts []Token, n int) bool = n <= 0 || (n <= len(ts) && okU64(ts[len(ts)-n].v) && uAll(ts, n-1))
