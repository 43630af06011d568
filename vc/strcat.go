package vc

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Texts built by concatenation and by fmt.Sprintf with a constant format are normalised to one right-nested
// concatenation with adjacent literals merged, so that two ways of writing the same text give the same term.

type strPart struct {
	lit bool
	s   string // literal text, or term
}

func (g *Gen) partsOf(t string) []strPart {
	if p, ok := g.catParts[t]; ok {
		return p
	}
	if s, ok := g.litText[t]; ok {
		if s == "" {
			return nil
		}
		return []strPart{{true, s}}
	}
	if d, ok := g.symDef[t]; ok {
		_, cat := g.catParts[d]
		_, lit := g.litText[d]
		_, sym := g.symDef[d]
		if cat || lit || sym {
			return g.partsOf(d)
		}
	}
	return []strPart{{false, t}}
}

func (g *Gen) cat(ps ...strPart) string {
	var n []strPart
	for _, p := range ps {
		if p.lit && p.s == "" {
			continue
		}
		if k := len(n); p.lit && k > 0 && n[k-1].lit {
			n[k-1].s += p.s
			continue
		}
		n = append(n, p)
	}
	if len(n) == 0 {
		return g.strLit("")
	}
	term := func(p strPart) string {
		if p.lit {
			return g.strLit(p.s)
		}
		return p.s
	}
	t := term(n[len(n)-1])
	for i := len(n) - 2; i >= 0; i-- {
		t = app("scat", term(n[i]), t)
	}
	if len(n) > 1 {
		if g.catParts == nil {
			g.catParts = map[string][]strPart{}
		}
		g.catParts[t] = n
	}
	return t
}

func (g *Gen) catTerms(a, b string) string {
	return g.cat(append(append([]strPart{}, g.partsOf(a)...), g.partsOf(b)...)...)
}

// dec is the decimal text of an integer.
func (g *Gen) dec(x string) string {
	return app(g.uf("x.dec/1", []string{"Int"}, "Str"), x)
}

// sprintf expands a call with a constant format of %d, %s, %v and %% on operands of statically known type.
func (f *frame) sprintf(in ssa.Instruction, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	if len(args) != 2 || !args[1].lit {
		return nil
	}
	fp := g.partsOf(args[0].t)
	if len(fp) > 1 || (len(fp) == 1 && !fp[0].lit) {
		return nil
	}
	format := ""
	if len(fp) == 1 {
		format = fp[0].s
	}
	ops := args[1].lits
	var ps []strPart
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			ps = append(ps, strPart{true, format[i : i+1]})
			continue
		}
		i++
		if i == len(format) {
			return nil
		}
		verb := format[i]
		if verb == '%' {
			ps = append(ps, strPart{true, "%"})
			continue
		}
		if len(ops) == 0 || ops[0].dyn == nil {
			return nil
		}
		p, ok := f.sprintOperand(in, verb, ops[0].dyn, c)
		if !ok {
			return nil
		}
		ps = append(ps, p...)
		ops = ops[1:]
	}
	if len(ops) != 0 {
		return nil
	}
	g.Assumed["fmt.Sprintf with a constant format writes its literal text, decimal integers (%d), strings and the results of String methods (%s, %v)"] = true
	return g.mkV(g.cat(ps...), resTy)
}

func (f *frame) sprintOperand(in ssa.Instruction, verb byte, v *V, c *cur) ([]strPart, bool) {
	g := f.g
	if v.t == "" {
		return nil, false
	}
	b, basic := types.Unalias(v.ty).Underlying().(*types.Basic)
	isInt := basic && b.Info()&types.IsInteger != 0
	switch verb {
	case 'd':
		if isInt {
			return []strPart{{false, g.dec(v.t)}}, true
		}
	case 's', 'v':
		ms := g.P.Prog.MethodSets.MethodSet(v.ty)
		if ms.Lookup(nil, "Error") != nil {
			return nil, false
		}
		if sel := ms.Lookup(nil, "String"); sel != nil {
			obj, ok := sel.Obj().(*types.Func)
			if !ok || len(sel.Index()) != 1 {
				return nil, false
			}
			if sig := obj.Type().(*types.Signature); !types.Identical(sig.Recv().Type(), v.ty) {
				return nil, false
			}
			fn := g.P.Prog.FuncValue(obj)
			if fn == nil || (!inRepo(fn) && g.C.For(FuncKey(fn)) == nil) {
				return nil, false
			}
			r := f.callFn(in, fn, []*V{v}, nil, c, types.Typ[types.String])
			if r == nil || r.t == "" {
				return nil, false
			}
			return g.partsOf(r.t), true
		}
		if basic && b.Info()&types.IsString != 0 {
			return g.partsOf(v.t), true
		}
		if verb == 'v' && isInt {
			return []strPart{{false, g.dec(v.t)}}, true
		}
	}
	return nil, false
}

// decCall recognises the standard decimal formatters.
func (f *frame) decCall(key string, args []*V, resTy types.Type) *V {
	g := f.g
	switch key {
	case "strconv.Itoa":
		return g.mkV(g.dec(args[0].t), resTy)
	case "strconv.FormatUint", "strconv.FormatInt":
		if n, err := strconv.Atoi(strings.TrimSpace(args[1].t)); err == nil && n == 10 {
			return g.mkV(g.dec(args[0].t), resTy)
		}
	}
	return nil
}
