package vc

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one specification clause.
type Clause struct {
	Kind     string
	Label    string
	Text     string
	Tags     []string
	Expr     ast.Expr
	Meta     []metaVar    // metavariables of an invariant template
	Loops    map[int]bool // the loops (in order) it is meant for, when the function has LoopsOf loops
	LoopsOf  int
	Internal bool
	Trust    bool // assumed at call sites, not proved of the body
	Where    string
}

type metaVar struct{ name, ty string }

// Contract of a function, an external function, a function type or an interface method.
type Contract struct {
	Key     string
	Params  []string
	Results []string
	Req     []*Clause
	Ens     []*Clause
	Pan     []*Clause
	Inv     []*Clause
	Dec     []*Clause
	Mod     []*Clause
	HasMod  bool
	Flags   map[string]bool
	Extern  bool
	Where   string
	Props   []string
	Dyn     map[string]string // parameter -> concrete type of the interface value
}

func (c *Contract) MayPanic() bool { return c.Flags["maypanic"] || len(c.Pan) > 0 }

type Def struct {
	Name   string
	Params []string
	Body   ast.Expr
	Where  string
}

type RecFn struct {
	Name   string
	Params []string
	PTypes []string
	Res    string
	Body   ast.Expr // nil: uninterpreted
	Ext    bool
	All    bool
	View   string
	Scale  int
	Where  string
}

type Lemma struct {
	Name   string
	Params []string
	PTypes []string
	By     string
	Trig   []ast.Expr
	Body   ast.Expr
	Axiom  bool
	Text   string
	Where  string
	Uses   []string
}

type Contracts struct {
	Ghosts map[string]string // specification variables
	By     map[string]*Contract
	Defs   map[string]*Def
	Recs   map[string]*RecFn
	Lemmas []*Lemma
}

func (cs *Contracts) For(key string) *Contract {
	if cs == nil {
		return nil
	}
	if c := cs.By[key]; c != nil {
		return c
	}
	if i := strings.Index(key, "["); i > 0 && strings.HasSuffix(key, "]") {
		return cs.By[key[:i]] // an instance of a generic function
	}
	return nil
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'':
			inStr = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if c == sep && d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	out = append(out, s[st:])
	for i := range out {
		out[i] = strings.TrimSpace(out[i])
	}
	return out
}

func parseExpr(s, where string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, s))
	}
	return e
}

func parseParams(s string) (names, tys []string) {
	s = strings.TrimSpace(s)
	if s == "" {
		return
	}
	for _, p := range splitTop(s, ',') {
		fs := strings.SplitN(p, " ", 2)
		names = append(names, strings.TrimSpace(fs[0]))
		if len(fs) > 1 {
			tys = append(tys, strings.TrimSpace(fs[1]))
		} else {
			tys = append(tys, "")
		}
	}
	return
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return j
			}
		}
	}
	return -1
}

// LoadContracts reads every *.vc file of a directory.
func LoadContracts(dir string) (cs *Contracts, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	cs = &Contracts{By: map[string]*Contract{}, Defs: map[string]*Def{}, Recs: map[string]*RecFn{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(fs)
	for _, fn := range fs {
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		cs.parse(filepath.Base(fn), string(b))
	}
	return cs, nil
}

func (cs *Contracts) parse(file, src string) {
	// join continuation lines (indented deeper with leading "...")
	type ln struct {
		s string
		n int
	}
	var lines []ln
	for i, l := range strings.Split(src, "\n") {
		if j := strings.Index(l, "##"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if strings.HasPrefix(t, "...") && len(lines) > 0 {
			lines[len(lines)-1].s += " " + strings.TrimSpace(t[3:])
			continue
		}
		lines = append(lines, ln{t, i + 1})
	}
	var cur *Contract
	for _, l := range lines {
		where := fmt.Sprintf("%s:%d", file, l.n)
		kw, rest, _ := strings.Cut(l.s, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "func", "extern", "iface", "functype":
			// key(params) (results)
			i := -1
			// last top-level '(' group(s): find parameter list: search from the end
			s := rest
			var groups []string
			for strings.HasSuffix(s, ")") && len(groups) < 2 {
				// find matching open
				d := 0
				j := len(s) - 1
				for ; j >= 0; j-- {
					if s[j] == ')' {
						d++
					}
					if s[j] == '(' {
						d--
						if d == 0 {
							break
						}
					}
				}
				groups = append(groups, s[j+1:len(s)-1])
				s = s[:j]
				if !strings.HasSuffix(s, " ") {
					break
				}
				s = strings.TrimRight(s, " ")
			}
			_ = i
			key := strings.TrimSpace(s)
			var ps, rs []string
			if len(groups) == 1 {
				ps, _ = parseParams(groups[0])
			} else if len(groups) == 2 {
				ps, _ = parseParams(groups[1])
				rs, _ = parseParams(groups[0])
			}
			if kw == "iface" || kw == "functype" {
				key = kw + " " + key
			}
			cur = cs.By[key]
			if cur == nil {
				cur = &Contract{Key: key, Params: ps, Results: rs, Flags: map[string]bool{}, Extern: kw == "extern", Where: where}
				cs.By[key] = cur
			}
		case "def":
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			name := strings.TrimSpace(rest[:i])
			ps, _ := parseParams(rest[i+1 : j])
			body := strings.TrimSpace(rest[j+1:])
			body = strings.TrimSpace(strings.TrimPrefix(body, "="))
			if cs.Defs[name] != nil {
				panic(where + ": " + name + " is defined twice")
			}
			cs.Defs[name] = &Def{Name: name, Params: ps, Body: parseExpr(body, where), Where: where}
		case "rec", "specfn":
			ext := false
			all := false
			scale := 1
			if strings.HasPrefix(rest, "ext all ") {
				// the function reads any of the elements
				ext, all = true, true
				rest = strings.TrimSpace(rest[8:])
			} else if strings.HasPrefix(rest, "ext ") {
				ext = true
				rest = strings.TrimSpace(rest[4:])
			} else if strings.HasPrefix(rest, "ext*") {
				// the function of k reads the first scale*k elements
				w, r, _ := strings.Cut(rest[4:], " ")
				n, err := strconv.Atoi(w)
				if err != nil {
					panic(where + ": ext*N")
				}
				ext, scale, rest = true, n, strings.TrimSpace(r)
			}
			view := ""
			if strings.HasPrefix(rest, "via(") {
				// elements may be read through the heap: equal views are enough
				k := matchParen(rest, 3)
				view, rest = strings.TrimSpace(rest[4:k]), strings.TrimSpace(rest[k+1:])
			}
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			name := strings.TrimSpace(rest[:i])
			ps, ts := parseParams(rest[i+1 : j])
			r := strings.TrimSpace(rest[j+1:])
			rf := &RecFn{Name: name, Params: ps, PTypes: ts, Ext: ext, All: all, Scale: scale, View: view, Where: where}
			if kw == "rec" {
				rt, body, ok := strings.Cut(r, "=")
				if !ok {
					panic(where + ": rec without body")
				}
				rf.Res = strings.TrimSpace(rt)
				rf.Body = parseExpr(strings.TrimSpace(body), where)
			} else {
				rf.Res = r
			}
			cs.Recs[name] = rf
		case "ghost": // ghost name type: specification state
			n, t, _ := strings.Cut(rest, " ")
			if cs.Ghosts == nil {
				cs.Ghosts = map[string]string{}
			}
			cs.Ghosts[n] = strings.TrimSpace(t)
		case "lemma", "axiom":
			// lemma name(x T, k int) by k trigger(a, b): expr
			i := strings.Index(rest, "(")
			j := matchParen(rest, i)
			lm := &Lemma{Name: strings.TrimSpace(rest[:i]), Axiom: kw == "axiom", Where: where}
			lm.Params, lm.PTypes = parseParams(rest[i+1 : j])
			r := strings.TrimSpace(rest[j+1:])
			if strings.HasPrefix(r, "by ") {
				r = strings.TrimSpace(r[3:])
				var nm string
				nm, r, _ = strings.Cut(r, " ")
				lm.By = strings.TrimSuffix(nm, ":")
				if strings.HasSuffix(nm, ":") {
					r = ":" + r
				}
				r = strings.TrimSpace(r)
			}
			if strings.HasPrefix(r, "trigger(") {
				k := matchParen(r, 7)
				for _, t := range splitTop(r[8:k], ',') {
					lm.Trig = append(lm.Trig, parseExpr(t, where))
				}
				r = strings.TrimSpace(r[k+1:])
			}
			r = strings.TrimSpace(strings.TrimPrefix(r, ":"))
			lm.Text = r
			lm.Body = parseExpr(r, where)
			cs.Lemmas = append(cs.Lemmas, lm)
		case "requires", "ensures", "trust", "panics", "invariant", "decreases", "internal":
			if cur == nil {
				panic(where + ": clause outside contract")
			}
			c := &Clause{Kind: kw, Where: where}
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]")
				for _, t := range strings.Split(rest[1:k], ",") {
					c.Tags = append(c.Tags, strings.TrimSpace(t))
				}
				rest = strings.TrimSpace(rest[k+1:])
			}
			if kw == "invariant" && strings.HasPrefix(rest, "@") {
				sel, r, _ := strings.Cut(rest[1:], " ")
				ls, of, _ := strings.Cut(sel, "/")
				c.Loops = map[int]bool{}
				for _, x := range strings.Split(ls, ",") {
					a, b, rg := strings.Cut(x, "-")
					n, err := strconv.Atoi(a)
					m := n
					if err == nil && rg {
						m, err = strconv.Atoi(b)
					}
					if err != nil {
						panic(where + ": loop selector")
					}
					for ; n <= m; n++ {
						c.Loops[n] = true
					}
				}
				n, err := strconv.Atoi(of)
				if err != nil {
					panic(where + ": loop selector")
				}
				c.LoopsOf, rest = n, strings.TrimSpace(r)
			}
			if kw == "invariant" || kw == "decreases" {
				if strings.HasPrefix(rest, "<") {
					k := strings.Index(rest, ">")
					for _, m := range splitTop(rest[1:k], ',') {
						n, t, _ := strings.Cut(m, ":")
						c.Meta = append(c.Meta, metaVar{strings.TrimSpace(n), strings.TrimSpace(t)})
					}
					rest = strings.TrimSpace(rest[k+1:])
				}
			}
			if i := strings.Index(rest, ":"); i > 0 && isIdent(rest[:i]) {
				c.Label = rest[:i]
				rest = strings.TrimSpace(rest[i+1:])
			}
			c.Text = rest
			c.Expr = parseExpr(rest, where)
			switch kw {
			case "requires":
				if c.Label == "" {
					c.Label = fmt.Sprintf("pre%d", len(cur.Req)+1)
				}
				cur.Req = append(cur.Req, c)
			case "ensures", "internal", "trust":
				if c.Label == "" {
					c.Label = fmt.Sprintf("post%d", len(cur.Ens)+1)
				}
				c.Internal = kw == "internal"
				c.Trust = kw == "trust"
				cur.Ens = append(cur.Ens, c)
			case "panics":
				if c.Label == "" {
					c.Label = fmt.Sprintf("panic%d", len(cur.Pan)+1)
				}
				cur.Pan = append(cur.Pan, c)
			case "invariant":
				cur.Inv = append(cur.Inv, c)
			case "decreases":
				cur.Dec = append(cur.Dec, c)
			}
		case "modifies":
			cur.HasMod = true
			if rest == "nothing" {
				continue
			}
			for _, p := range splitTop(rest, ',') {
				cur.Mod = append(cur.Mod, &Clause{Kind: kw, Text: p, Expr: parseExpr(p, where), Where: where})
			}
		case "flags":
			for _, x := range strings.Fields(rest) {
				cur.Flags[x] = true
			}
		case "dyn":
			n, t, _ := strings.Cut(rest, " ")
			if cur.Dyn == nil {
				cur.Dyn = map[string]string{}
			}
			t = strings.TrimSpace(t)
			cur.Dyn[n] = t
			text := fmt.Sprintf("is(%s, %s) && as(%s, %s) != nil", n, t, n, t)
			cur.Req = append(cur.Req, &Clause{Kind: "requires", Label: "dyn", Text: text, Expr: parseExpr(text, where), Where: where})
		case "props":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		default:
			panic(where + ": unknown keyword " + kw)
		}
	}
}

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '-')) {
			return false
		}
	}
	return true
}

// UnitsFor lists the functions whose contracts carry a property.
func (cs *Contracts) UnitsFor(p *Program, prop string) []string {
	var ks []string
	for k, c := range cs.By {
		for _, pr := range c.Props {
			if pr != prop {
				continue
			}
			switch {
			case strings.HasPrefix(k, "functype "):
				for _, fk := range p.funcsOfType(strings.TrimPrefix(k, "functype ")) {
					ks = append(ks, k+" @ "+fk)
				}
			case strings.HasPrefix(k, "iface "):
				for _, fk := range p.implsOf(strings.TrimPrefix(k, "iface ")) {
					ks = append(ks, k+" @ "+fk)
					if c.Flags["refine"] && cs.By[fk] != nil {
						ks = append(ks, fk)
					}
				}
			default:
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	var us []string
	for i, k := range ks {
		if i == 0 || k != ks[i-1] {
			us = append(us, k)
		}
	}
	return us
}

// funcsOfType: functions of the module used as values whose signature is sig.
func (p *Program) funcsOfType(sig string) []string {
	seen := map[string]bool{}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					skip = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || *op == skip || !inRepo(f) || f.Signature.Recv() != nil {
						continue
					}
					if SigKey(f.Signature) == sig {
						seen[FuncKey(f)] = true
					}
				}
			}
		}
	}
	var out []string
	for k := range seen {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// implsOf: methods of the module that implement interface method "pkg.T.M"
// on a type the repository boxes.
func (p *Program) implsOf(key string) []string {
	i := strings.LastIndex(key, ".")
	tn, mn := key[:i], key[i+1:]
	var out []string
	for _, n := range p.Named {
		it, ok := n.Underlying().(*types.Interface)
		if !ok || TS(n) != tn {
			continue
		}
		var m *types.Func
		for j := 0; j < it.NumMethods(); j++ {
			if it.Method(j).Name() == mn {
				m = it.Method(j)
			}
		}
		if m == nil {
			continue
		}
		for _, t := range p.implementers(n) {
			if !p.boxedTypes()[TS(t)] {
				continue
			}
			if fn := p.method(t, m); fn != nil && fn.Synthetic == "" {
				out = append(out, FuncKey(fn))
			}
		}
	}
	sort.Strings(out)
	return out
}

// SigKey renders a signature without parameter names.
func SigKey(s *types.Signature) string {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return TS(types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic()))
}
