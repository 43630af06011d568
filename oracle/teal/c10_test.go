package teal

import (
	"fmt"
	"sort"
	"testing"
)

func TestOracleC10(t *testing.T) {
	o := vNew(t, "lists of highlighted tokens (unsorted, repeated positions, empty, same and different lines) encoded and decoded again")
	for i := 0; i < o.N(60000) && !o.Expired(); i++ {
		n := o.R.Intn(9)
		if o.R.Intn(50) == 0 {
			n = 40 + o.R.Intn(60)
		}
		maxL, maxI := 1+o.R.Intn(6), 1+o.R.Intn(8)
		if o.R.Intn(20) == 0 {
			maxL, maxI = 1<<30, 1<<30
		}
		var ts SemanticTokens
		for k := 0; k < n; k++ {
			ts = append(ts, SemanticToken{o.R.Intn(maxL), o.R.Intn(maxI), o.R.Intn(300), o.R.Intn(9), o.R.Intn(4)})
		}
		in := append([]SemanticToken{}, ts...)
		o.Case(fmt.Sprintf("%v", in), n > 1, func(fail func(string, string, any, any)) {
			d := ts.Encode()
			if len(d) != 5*n {
				fail("len", "five integers per token", 5*n, len(d))
				return
			}
			var out []SemanticToken
			l, c := 0, 0
			for k := 0; k < n; k++ {
				e := d[5*k : 5*k+5]
				if e[0] != 0 {
					l, c = l+int(e[0]), 0
				}
				c += int(e[1])
				out = append(out, SemanticToken{l, c, int(e[2]), int(e[3]), int(e[4])})
			}
			for k := 1; k < n; k++ {
				a, b := out[k-1], out[k]
				if a.Line > b.Line || a.Line == b.Line && a.Index > b.Index {
					fail("order", "decoded tokens are in position order", "sorted", out)
					return
				}
			}
			key := func(s []SemanticToken) string {
				x := append([]SemanticToken{}, s...)
				sort.Slice(x, func(i, j int) bool { return fmt.Sprint(x[i]) < fmt.Sprint(x[j]) })
				return fmt.Sprint(x)
			}
			if key(out) != key(in) {
				fail("tokens", "decoding gives the tokens again", in, out)
			}
		})
	}
	o.Done()
}
