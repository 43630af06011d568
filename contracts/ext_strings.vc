# assumed contracts on the standard library (strings)
extern strings.HasPrefix(s, p) (r)
  ensures imp(r, len(s) >= len(p) && forall(k, 0, len(p), s[k] == p[k]))
  flags pure
extern strings.HasSuffix(s, p) (r)
  ensures iff(r, len(s) >= len(p) && forall(k, 0, len(p), s[len(s)-len(p)+k] == p[k]))
  flags pure
extern strings.IndexRune(s, c) (r)
  ensures -1 <= r && r < len(s)
  ensures imp(r >= 0 && 0 <= c && c < 128, s[r] == c)
  ensures imp(r >= 0 && 0 <= c && c < 128, forall(k, 0, r, s[k] != c))
  ensures imp(r == -1 && 0 <= c && c < 128, forall(k, 0, len(s), s[k] != c))
  flags pure
extern fmt.Errorf(f, a) (err)
  ensures some: err != nil
  flags pure
extern errors.New(f) (err)
  ensures some: err != nil
  flags pure
extern github.com/algorand/go-algorand-sdk/types.DecodeAddress(s) (a, err)
  flags pure
