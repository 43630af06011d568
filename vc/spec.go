package vc

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"regexp"
	"strconv"
	"strings"
)

type env struct {
	g        *Gen
	f        *frame
	vars     map[string]*V
	st       State
	old      State
	pre      State
	preVars  map[string]*V
	visKey   string
	visKeyTy types.Type
	fuel0    string // name of rec function whose recursive calls use fuel 0
	where    string
	cells    map[string]*Addr // captured variables of a closure
}

func (e *env) with(name string, v *V) *env {
	n := *e
	n.vars = make(map[string]*V, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	if e.preVars != nil {
		n.preVars = make(map[string]*V, len(e.preVars)+1)
		for k, x := range e.preVars {
			n.preVars[k] = x
		}
		n.preVars[name] = v
	}
	return &n
}

func (f *frame) conEnv(con *Contract, args []*V, res *V, st, old State) *env {
	e := &env{g: f.g, f: f, vars: map[string]*V{}, st: st, old: old, where: con.Where}
	for i, p := range con.Params {
		if i < len(args) {
			e.vars[p] = args[i]
		}
	}
	e.cells = f.g.cellsFor[con]
	if res != nil {
		if res.tup != nil {
			for i, x := range res.tup {
				e.vars[fmt.Sprintf("r%d", i)] = x
				if i < len(con.Results) {
					e.vars[con.Results[i]] = x
				}
			}
		} else {
			e.vars["r0"] = res
			e.vars["result"] = res
			if len(con.Results) > 0 {
				e.vars[con.Results[0]] = res
			}
		}
	}
	return e
}

func (e *env) boolExpr(c *Clause) string {
	n := *e
	n.where = c.Where
	v := n.eval(c.Expr)
	return v.t
}

func (e *env) fail(format string, a ...any) {
	unsup("spec %s: %s", e.where, fmt.Sprintf(format, a...))
}

func (e *env) eval(x ast.Expr) *V {
	g := e.g
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v := constant.MakeFromLiteral(x.Value, token.INT, 0)
			return g.mkV(intLit(v.ExactString()), types.Typ[types.Int])
		case token.CHAR:
			v := constant.MakeFromLiteral(x.Value, token.CHAR, 0)
			return g.mkV(intLit(v.ExactString()), types.Typ[types.Int])
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				e.fail("%v", err)
			}
			return g.mkV(g.strLit(s), types.Typ[types.String])
		}
	case *ast.Ident:
		return e.ident(x.Name)
	case *ast.UnaryExpr:
		v := e.eval(x.X)
		switch x.Op {
		case token.NOT:
			return g.mkV(not(v.t), v.ty)
		case token.SUB:
			return g.mkV("(- "+v.t+")", v.ty)
		}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.StarExpr:
		v := e.eval(x.X)
		a := e.f0().addrOf(v, nil)
		return g.mkV(g.load(e.st, a), a.ty)
	case *ast.SelectorExpr:
		return e.selector(x)
	case *ast.IndexExpr:
		v := e.eval(x.X)
		i := e.eval(x.Index)
		return e.index(v, i)
	case *ast.SliceExpr:
		v := e.eval(x.X)
		if g.sort(v.ty) == "Str" {
			lo, hi := "0", "(slen "+v.t+")"
			if x.Low != nil {
				lo = e.eval(x.Low).t
			}
			if x.High != nil {
				hi = e.eval(x.High).t
			}
			return g.mkV(app("ssub", v.t, lo, hi), v.ty)
		}
		lo, hi := "0", "(s.len "+v.t+")"
		if x.Low != nil {
			lo = e.eval(x.Low).t
		}
		if x.High != nil {
			hi = e.eval(x.High).t
		}
		return &V{t: fmt.Sprintf("(mkSlice (s.base %s) (+ (s.off %s) %s) (- %s %s) (- (s.cap %s) %s))", v.t, v.t, lo, hi, lo, v.t, lo), ty: v.ty, row: v.row}
	case *ast.CompositeLit:
		t := e.typ(x.Type)
		si := g.sinfo(t)
		u := types.Unalias(t).Underlying().(*types.Struct)
		vals := map[string]string{}
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			vals[kv.Key.(*ast.Ident).Name] = e.eval(kv.Value).t
		}
		var xs []string
		for i := 0; i < u.NumFields(); i++ {
			if v, ok := vals[u.Field(i).Name()]; ok {
				xs = append(xs, v)
			} else {
				xs = append(xs, g.zero(u.Field(i).Type()))
			}
		}
		return g.mkV(app(si.mk, xs...), t)
	case *ast.CallExpr:
		return e.call(x)
	}
	e.fail("unsupported expression %T", x)
	return nil
}

func (e *env) f0() *frame {
	if e.f != nil {
		return e.f
	}
	return &frame{g: e.g}
}

func (e *env) ident(n string) *V {
	g := e.g
	switch n {
	case "true", "false":
		return g.mkV(n, types.Typ[types.Bool])
	case "nil":
		return g.mkV("nil", types.Typ[types.UntypedNil])
	}
	if v, ok := e.vars[n]; ok {
		return v
	}
	if a, ok := e.cells[n]; ok {
		return g.mkV(g.load(e.st, a), a.ty)
	}
	if k, ty := e.ghost(n); k != "" {
		return g.mkV(g.get(e.st, k), ty)
	}
	// package-level object of teal (or of the contract's package)
	for _, pp := range []string{RepoModule, RepoModule + "/lsp", RepoModule + "/dbg"} {
		p := g.P.Pkgs[pp]
		if p == nil {
			continue
		}
		if v := e.pkgObj(p.Pkg, n); v != nil {
			return v
		}
	}
	if d, ok := g.C.Defs[n]; ok && len(d.Params) == 0 {
		return e.eval(d.Body)
	}
	e.fail("unknown name %s", n)
	return nil
}

// ghost is the state key of a specification variable.
func (e *env) ghost(n string) (string, types.Type) {
	tt, ok := e.g.C.Ghosts[n]
	if !ok {
		return "", nil
	}
	ty := e.g.typeByText(tt, "ghost "+n)
	return e.g.key("G.ghost."+n, e.g.sort(ty), ty), ty
}

func (e *env) pkgObj(p *types.Package, n string) *V {
	g := e.g
	o := p.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Const:
		v := o.Val()
		switch v.Kind() {
		case constant.Int:
			return g.mkV(intLit(v.ExactString()), o.Type())
		case constant.String:
			return g.mkV(g.strLit(constant.StringVal(v)), o.Type())
		case constant.Bool:
			return g.mkV(v.String(), o.Type())
		}
	case *types.Var:
		k := g.key("G."+short(p.Path())+"."+n, g.sort(o.Type()), o.Type())
		return g.mkV(g.get(e.st, k), o.Type())
	}
	return nil
}

func (e *env) typ(x ast.Expr) types.Type {
	switch x := x.(type) {
	case *ast.Ident:
		switch x.Name {
		case "int", "string", "bool", "byte", "uint8", "uint64", "int64", "int8", "uint32", "int32", "error", "any", "rune", "uint16", "int16", "uint":
			return types.Universe.Lookup(x.Name).Type()
		}
		for _, pp := range []string{RepoModule, RepoModule + "/lsp", RepoModule + "/dbg", RepoModule + "/internal/sarif"} {
			if p := e.g.P.Pkgs[pp]; p != nil {
				if o, ok := p.Pkg.Scope().Lookup(x.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	case *ast.SelectorExpr:
		pn := x.X.(*ast.Ident).Name
		for path, p := range e.g.P.Pkgs {
			if short(path) == pn || p.Pkg.Name() == pn {
				if o, ok := p.Pkg.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
		for _, p := range e.g.P.Pkgs {
			for _, im := range p.Pkg.Imports() {
				if im.Name() == pn {
					if o, ok := im.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
						return o.Type()
					}
				}
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(e.typ(x.X))
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(e.typ(x.Elt))
		}
	case *ast.MapType:
		return types.NewMap(e.typ(x.Key), e.typ(x.Value))
	case *ast.ParenExpr:
		return e.typ(x.X)
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	e.fail("unknown type %s", types.ExprString(x))
	return nil
}

func (g *Gen) typeByText(s, where string) types.Type {
	e := &env{g: g, where: where}
	return e.typ(parseExpr(s, where))
}

func (e *env) eqV(a, b *V) string {
	g := e.g
	isNil := func(v *V) bool { return v.ty == types.Typ[types.UntypedNil] }
	if isNil(b) {
		a, b = b, a
	}
	if isNil(a) {
		if isNil(b) {
			return "true"
		}
		switch g.sort(b.ty) {
		case SliceSort:
			return "(= (s.base " + b.t + ") 0)"
		case "Any":
			return "(= (typeof " + b.t + ") 0)"
		}
		if b.addr != nil && b.t == "" {
			return "false"
		}
		return eq(b.t, "0")
	}
	if g.sort(a.ty) == "Any" && g.sort(b.ty) != "Any" {
		box, _ := g.boxes(b.ty)
		return eq(a.t, app(box, b.t))
	}
	if g.sort(b.ty) == "Any" && g.sort(a.ty) != "Any" {
		box, _ := g.boxes(a.ty)
		return eq(b.t, app(box, a.t))
	}
	if g.sort(a.ty) != g.sort(b.ty) {
		e.fail("comparison of %s and %s", TS(a.ty), TS(b.ty))
	}
	return eq(a.t, b.t)
}

func (e *env) binary(x *ast.BinaryExpr) *V {
	g := e.g
	bt := types.Typ[types.Bool]
	a := e.eval(x.X)
	b := e.eval(x.Y)
	switch x.Op {
	case token.LAND:
		return g.mkV(and(a.t, b.t), bt)
	case token.LOR:
		return g.mkV(or(a.t, b.t), bt)
	case token.EQL:
		return g.mkV(e.eqV(a, b), bt)
	case token.NEQ:
		return g.mkV(not(e.eqV(a, b)), bt)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return g.mkV(app(x.Op.String(), a.t, b.t), bt)
	case token.ADD:
		if g.sort(a.ty) == "Str" {
			return g.mkV(g.catTerms(a.t, b.t), types.Typ[types.String])
		}
		return g.mkV(app("+", a.t, b.t), types.Typ[types.Int])
	case token.SUB, token.MUL:
		return g.mkV(app(x.Op.String(), a.t, b.t), types.Typ[types.Int])
	case token.QUO:
		return g.mkV(app("div", a.t, b.t), types.Typ[types.Int])
	case token.REM:
		return g.mkV(app("mod", a.t, b.t), types.Typ[types.Int])
	}
	e.fail("operator %s", x.Op)
	return nil
}

// field of a struct value or through a pointer, following embedded fields
func (e *env) field(v *V, name string) *V {
	g := e.g
	t := types.Unalias(v.ty)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		et := types.Unalias(pt.Elem())
		u, ok := et.Underlying().(*types.Struct)
		if !ok {
			e.fail("field %s of %s", name, TS(t))
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				ad := g.fieldAddr(e.f0().addrOf(v, nil), et, i)
				return g.mkV(g.load(e.st, ad), u.Field(i).Type())
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() && hasField(u.Field(i).Type(), name) {
				ad := g.fieldAddr(e.f0().addrOf(v, nil), et, i)
				return e.field(g.mkV(g.load(e.st, ad), u.Field(i).Type()), name)
			}
		}
		e.fail("no field %s in %s", name, TS(t))
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail("field %s of %s", name, TS(t))
	}
	si := g.sinfo(t)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return g.mkV(app(si.fields[i], v.t), u.Field(i).Type())
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() && hasField(u.Field(i).Type(), name) {
			return e.field(g.mkV(app(si.fields[i], v.t), u.Field(i).Type()), name)
		}
	}
	e.fail("no field %s in %s", name, TS(t))
	return nil
}

func hasField(t types.Type, name string) bool {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return true
		}
		if u.Field(i).Embedded() && hasField(u.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *env) selector(x *ast.SelectorExpr) *V {
	if id, ok := x.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar {
			for path, p := range e.g.P.Pkgs {
				if short(path) == id.Name || p.Pkg.Name() == id.Name && strings.HasPrefix(path, RepoModule) {
					if v := e.pkgObj(p.Pkg, x.Sel.Name); v != nil {
						return v
					}
				}
			}
			for _, p := range e.g.P.Pkgs {
				if !strings.HasPrefix(p.Pkg.Path(), RepoModule) {
					continue
				}
				for _, im := range p.Pkg.Imports() {
					if im.Name() == id.Name {
						if v := e.pkgObj(im, x.Sel.Name); v != nil {
							return v
						}
					}
				}
			}
		}
	}
	return e.field(e.eval(x.X), x.Sel.Name)
}

func (e *env) rowOf(v *V) string {
	if v.row != "" {
		return v.row
	}
	sl, ok := types.Unalias(v.ty).Underlying().(*types.Slice)
	if !ok {
		e.fail("not a slice: %s", TS(v.ty))
	}
	return sel(e.g.get(e.st, e.g.ekey(sl.Elem())), "(s.base "+v.t+")")
}

func (e *env) index(v, i *V) *V {
	g := e.g
	switch u := types.Unalias(v.ty).Underlying().(type) {
	case *types.Slice:
		if v.lit {
			e.fail("index of literal")
		}
		return g.mkV(sel(e.rowOf(v), "(ix (s.off "+v.t+") "+i.t+")"), u.Elem())
	case *types.Array:
		return g.mkV(sel(v.t, i.t), u.Elem())
	case *types.Map:
		d, vv, _ := g.mkeys(v.ty)
		return g.mkV(app(g.mget(u), sel(g.get(e.st, d), v.t), sel(g.get(e.st, vv), v.t), i.t), u.Elem())
	case *types.Basic:
		return g.mkV(app("sat", v.t, i.t), types.Typ[types.Uint8])
	}
	e.fail("index of %s", TS(v.ty))
	return nil
}

// mget is the value of a map at a key: the zero value where the key is absent.
func (g *Gen) mget(u *types.Map) string {
	n := q("mget." + TS(u.Key()) + "," + TS(u.Elem()))
	if !g.mgets[n] {
		if g.mgets == nil {
			g.mgets = map[string]bool{}
		}
		g.mgets[n] = true
		k, v := g.sort(u.Key()), g.sort(u.Elem())
		g.pre = append(g.pre, fmt.Sprintf("(declare-fun %s ((Array %s Bool) (Array %s %s) %s) %s)", n, k, k, v, k, v),
			fmt.Sprintf("(assert (forall ((d (Array %s Bool)) (a (Array %s %s)) (k %s)) (! (= (%s d a k) (ite (select d k) (select a k) %s)) :pattern ((%s d a k)))))", k, k, v, k, n, g.zero(u.Elem()), n))
	}
	return n
}

func (e *env) bound(name string, t types.Type) (*V, string, *env) {
	e.g.n++
	s := q(fmt.Sprintf("%s?%d", name, e.g.n))
	v := e.g.mkV(s, t)
	return v, fmt.Sprintf("(%s %s)", s, e.g.sort(t)), e.with(name, v)
}

var boundRe = regexp.MustCompile(`\((?:forall|exists) \(\(([^ ()]+) `)

func hasAtom(term, a string) bool {
	for i := 0; ; {
		j := strings.Index(term[i:], a)
		if j < 0 {
			return false
		}
		j += i
		e := j + len(a)
		if (j == 0 || term[j-1] == ' ' || term[j-1] == '(') && (e == len(term) || term[e] == ' ' || term[e] == ')') {
			return true
		}
		i = e
	}
}

// patterns for a quantifier over bound variable b in body
func patterns(body, b string) []string {
	var pats []string
	seen := map[string]bool{}
	depth := 0
	var starts []int
	inner := boundRe.FindAllStringSubmatch(body, -1)
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '|':
			i++
			for i < len(body) && body[i] != '|' {
				i++
			}
		case '(':
			starts = append(starts, i)
			depth++
		case ')':
			s := starts[len(starts)-1]
			starts = starts[:len(starts)-1]
			term := body[s : i+1]
			ok := usable(term, b) && !seen[term]
			for _, n := range inner {
				if ok && hasAtom(term, n[1]) {
					ok = false
				}
			}
			if ok {
				seen[term] = true
				pats = append(pats, term)
				if strings.HasPrefix(term, "(|mget.") {
					if d := "(select " + topArgs(term)[0] + " " + b + ")"; !seen[d] {
						seen[d] = true
						pats = append(pats, d)
					}
				}
			}
		}
	}
	return pats
}

// usable: (select R (ix O b)) or (recfn ... b ...) or (dom select) with b a direct argument
func usable(term, b string) bool {
	if strings.Contains(term, "forall") || strings.Contains(term, "exists") || strings.Contains(term, "(and ") || strings.Contains(term, "(or ") || strings.Contains(term, "(=> ") || strings.Contains(term, "(= ") || strings.Contains(term, "(not ") || strings.Contains(term, "(ite ") || strings.Contains(term, "(< ") || strings.Contains(term, "(<= ") {
		return false
	}
	if strings.Contains(term, "(+ ") || strings.Contains(term, "(- ") {
		// arithmetic on the bound variable is no good; on others it is tolerated
		if strings.Contains(term, "(+ "+b+" ") || strings.Contains(term, "(- "+b+" ") || strings.Contains(term, " "+b+")") && strings.Contains(term, "(+ ") && strings.Contains(term, "(+ 1 "+b) {
			return false
		}
	}
	if strings.HasPrefix(term, "(select ") && strings.HasSuffix(term, " "+b+"))") {
		// (select R (ix O b))
		j := strings.LastIndex(term, "(ix ")
		if j > 0 {
			in := term[j:]
			return strings.HasSuffix(in, " "+b+"))") && balanced(in[:len(in)-1])
		}
		return false
	}
	if strings.HasPrefix(term, "(select ") && strings.HasSuffix(term, " "+b+")") {
		return true
	}
	if strings.HasPrefix(term, "(sat ") && strings.HasSuffix(term, " "+b+")") {
		return true
	}
	if strings.HasPrefix(term, "(rec.") || strings.HasPrefix(term, "(|rec.") {
		args := topArgs(term)
		for _, a := range args {
			if a == b {
				return true
			}
		}
	}
	if strings.HasPrefix(term, "(|mget.") {
		a := topArgs(term)
		return len(a) == 3 && a[2] == b
	}
	if strings.HasPrefix(term, "(typeof "+b+")") || strings.HasPrefix(term, "(m.") || strings.HasPrefix(term, "(|m.") {
		for _, a := range topArgs(term) {
			if a == b {
				return true
			}
		}
	}
	return false
}

func balanced(s string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d < 0 {
				return false
			}
		}
	}
	return d == 0
}

func topArgs(term string) []string {
	// "(f a b c)" -> args
	s := term[1 : len(term)-1]
	var out []string
	d := 0
	st := -1
	for i := 0; i <= len(s); i++ {
		if i == len(s) || (s[i] == ' ' && d == 0) {
			if st >= 0 {
				out = append(out, s[st:i])
			}
			st = -1
			continue
		}
		if st < 0 {
			st = i
		}
		switch s[i] {
		case '|':
			for i++; i < len(s) && s[i] != '|'; i++ {
			}
		case '(':
			d++
		case ')':
			d--
		}
	}
	if len(out) > 0 {
		out = out[1:]
	}
	return out
}

func quant(kind, decl, b, body string) string {
	if kind == "forall" {
		ps := patterns(body, b)
		if len(ps) > 0 && len(ps) <= 6 {
			var sb strings.Builder
			for _, p := range ps {
				sb.WriteString(" :pattern (" + p + ")")
			}
			return "(forall (" + decl + ") (! " + body + sb.String() + "))"
		}
	}
	return "(" + kind + " (" + decl + ") " + body + ")"
}

func (e *env) call(x *ast.CallExpr) *V {
	g := e.g
	bt, it := types.Typ[types.Bool], types.Typ[types.Int]
	if sel0, ok := x.Fun.(*ast.SelectorExpr); ok {
		// interface method as uninterpreted function
		r := e.eval(sel0.X)
		ifc, ok := types.Unalias(r.ty).Underlying().(*types.Interface)
		if !ok {
			// concrete type with trivial accessor
			return e.accessor(r, sel0.Sel.Name)
		}
		for i := 0; i < ifc.NumMethods(); i++ {
			m := ifc.Method(i)
			if m.Name() == sel0.Sel.Name {
				sig := m.Type().(*types.Signature)
				srts := []string{"Any"}
				ts := []string{r.t}
				for _, a := range x.Args {
					av := e.eval(a)
					srts = append(srts, g.sort(av.ty))
					ts = append(ts, av.t)
				}
				rt := sig.Results().At(0).Type()
				fn := g.uf(fmt.Sprintf("m.%s/%d", m.Name(), len(srts)), srts, g.sort(rt))
				return g.mkV(app(fn, ts...), rt)
			}
		}
		e.fail("no method %s", sel0.Sel.Name)
	}
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		e.fail("call %s", types.ExprString(x.Fun))
	}
	arg := func(i int) *V { return e.eval(x.Args[i]) }
	switch id.Name {
	case "old":
		n := *e
		n.st = e.old
		return n.eval(x.Args[0])
	case "pre":
		n := *e
		n.st = e.pre
		if e.preVars != nil {
			n.vars = e.preVars
		}
		return n.eval(x.Args[0])
	case "forall", "exists":
		nm := x.Args[0].(*ast.Ident).Name
		lo, hi := arg(1), arg(2)
		b, decl, ne := e.bound(nm, it)
		body := ne.eval(x.Args[3]).t
		rng := and("(<= "+lo.t+" "+b.t+")", "(< "+b.t+" "+hi.t+")")
		if id.Name == "forall" {
			return g.mkV(quant("forall", decl, b.t, imp(rng, body)), bt)
		}
		return g.mkV(quant("exists", decl, b.t, and(rng, body)), bt)
	case "all", "some":
		nm := x.Args[0].(*ast.Ident).Name
		t := e.typ(x.Args[1])
		b, decl, ne := e.bound(nm, t)
		body := ne.eval(x.Args[2]).t
		k := "forall"
		if id.Name == "some" {
			k = "exists"
		}
		return g.mkV(quant(k, decl, b.t, body), bt)
	case "imp":
		return g.mkV(imp(arg(0).t, arg(1).t), bt)
	case "iff":
		return g.mkV(eq(arg(0).t, arg(1).t), bt)
	case "ite":
		c, a, b := arg(0), arg(1), arg(2)
		if a.ty == types.Typ[types.UntypedNil] {
			e.fail("ite nil")
		}
		return &V{t: ite(c.t, a.t, b.t), ty: a.ty}
	case "len", "cap":
		v := arg(0)
		if v.lit {
			return g.mkV(fmt.Sprint(len(v.lits)), it)
		}
		switch types.Unalias(v.ty).Underlying().(type) {
		case *types.Slice:
			return g.mkV("(s."+id.Name+" "+v.t+")", it)
		case *types.Map:
			_, _, l := g.mkeys(v.ty)
			return g.mkV(sel(g.get(e.st, l), v.t), it)
		case *types.Array:
			return g.mkV(fmt.Sprint(types.Unalias(v.ty).Underlying().(*types.Array).Len()), it)
		}
		return g.mkV("(slen "+v.t+")", it)
	case "base":
		return g.mkV("(s.base "+arg(0).t+")", it)
	case "off":
		return g.mkV("(s.off "+arg(0).t+")", it)
	case "ref":
		return g.mkV(arg(0).t, it)
	case "alloc":
		return g.mkV(g.get(e.st, g.allocKey()), it)
	case "is":
		v := arg(0)
		t := e.typ(x.Args[1])
		if v.dyn != nil {
			if types.Identical(v.dyn.ty, t) {
				return g.mkV("true", bt)
			}
			return g.mkV("false", bt)
		}
		return g.mkV(eq("(typeof "+v.t+")", fmt.Sprint(g.tag(t))), bt)
	case "impl":
		v := arg(0)
		t := e.typ(x.Args[1])
		g.tagAll()
		return g.mkV(app(g.implPred(t), "(typeof "+v.t+")"), bt)
	case "as":
		v := arg(0)
		t := e.typ(x.Args[1])
		if v.dyn != nil && types.Identical(v.dyn.ty, t) {
			return v.dyn
		}
		_, unbox := g.boxes(t)
		return g.mkV(app(unbox, v.t), t)
	case "asI": // view an interface value through another interface type
		v := arg(0)
		return g.mkV(v.t, e.typ(x.Args[1]))
	case "box":
		v := arg(0)
		t := v.ty
		if len(x.Args) > 1 {
			t = e.typ(x.Args[1])
		}
		box, _ := g.boxes(t)
		return g.mkV(app(box, v.t), types.NewInterfaceType(nil, nil))
	case "dom":
		m, k := arg(0), arg(1)
		d, _, _ := g.mkeys(m.ty)
		return g.mkV(and(not(eq(m.t, "0")), sel(sel(g.get(e.st, d), m.t), k.t)), bt)
	case "str":
		v := arg(0)
		return g.mkV(app("b2s", e.rowOf(v), "(s.off "+v.t+")", "(s.len "+v.t+")"), types.Typ[types.String])
	case "sub": // string of bytes v[lo:hi]
		v := arg(0)
		lo, hi := arg(1), arg(2)
		return g.mkV(app("b2s", e.rowOf(v), "(+ (s.off "+v.t+") "+lo.t+")", "(- "+hi.t+" "+lo.t+")"), types.Typ[types.String])
	case "local": // the one object of this pointer type allocated by the function
		t := e.typ(x.Args[0])
		vs := g.news[TS(t)]
		if len(vs) != 1 {
			e.fail("%d allocations of %s, need exactly one", len(vs), TS(t))
		}
		return vs[0]
	case "fresh":
		v := arg(0)
		t := v.t
		if g.sort(v.ty) == SliceSort {
			t = "(s.base " + v.t + ")"
		}
		return g.mkV("(>= "+t+" "+g.get(e.old, g.allocKey())+")", bt)
	case "visited":
		if e.visKey == "" {
			e.fail("no map iteration here")
		}
		return g.mkV(sel(g.get(e.st, e.visKey), arg(0).t), bt)
	case "unchanged": // unchanged(place...): same value as in old state
		var cs []string
		for _, a := range x.Args {
			cur := e.eval(a)
			n := *e
			n.st = e.old
			cs = append(cs, eq(cur.t, n.eval(a).t))
		}
		return g.mkV(and(cs...), bt)
	case "sameElems": // sameElems(s): the elements of slice s are as in old
		v := arg(0)
		n := *e
		n.st = e.old
		return g.mkV(eq(e.rowOf(v), n.rowOf(v)), bt)
	case "wrap8":
		return g.mkV(wrap(types.Typ[types.Uint8], arg(0).t), it)
	case "wrap32":
		return g.mkV(wrap(types.Typ[types.Uint32], arg(0).t), it)
	case "fnval": // identity of a named function
		fn := g.P.Funcs[x.Args[0].(*ast.BasicLit).Value]
		return g.mkV(g.fnId(fn), it)
	case "ext": // ext("strings.ReplaceAll", args...) : the pure external function
		nm, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
		rt := e.typ(x.Args[1])
		idx := -1
		var srts, ts []string
		for _, a := range x.Args[2:] {
			v := e.eval(a)
			if g.sort(v.ty) == SliceSort {
				sl := types.Unalias(v.ty).Underlying().(*types.Slice)
				srts = append(srts, "(Array Int "+g.sort(sl.Elem())+")", "Int", "Int")
				ts = append(ts, e.rowOf(v), "(s.off "+v.t+")", "(s.len "+v.t+")")
				continue
			}
			srts = append(srts, g.sort(v.ty))
			ts = append(ts, v.t)
		}
		if k := strings.LastIndex(nm, "#"); k >= 0 {
			idx, _ = strconv.Atoi(nm[k+1:])
			nm = nm[:k]
		}
		nm = "x." + nm
		if idx >= 0 {
			nm = fmt.Sprintf("%s#%d", nm, idx)
		}
		if g.sort(rt) == SliceSort {
			if k := strings.LastIndex(nm, "#"); k >= 0 {
				nm = nm[:k]
			}
			k := g.ekey(types.Unalias(rt).Underlying().(*types.Slice).Elem())
			rowf := g.uf(nm+".row", srts, elemSort(g.keySort[k]))
			lenf := g.uf(nm+".len", srts, "Int")
			n := app(lenf, ts...)
			return &V{t: "(mkSlice 0 0 " + n + " " + n + ")", ty: rt, row: app(rowf, ts...)}
		}
		fn := g.uf(fmt.Sprintf("%s/%d", nm, len(srts)), srts, g.sort(rt))
		return g.mkV(app(fn, ts...), rt)
	}
	if d, ok := g.C.Defs[id.Name]; ok {
		if len(d.Params) != len(x.Args) {
			e.fail("%s: wrong number of arguments", id.Name)
		}
		n := *e
		n.vars = map[string]*V{}
		// hygienic: only parameters are visible, evaluated lazily per state => evaluate now
		for k, v := range e.vars {
			if strings.HasPrefix(k, "#") {
				n.vars[k] = v
			}
		}
		var pv map[string]*V
		if e.preVars != nil {
			pv = map[string]*V{}
		}
		for i, p := range d.Params {
			n.vars[p] = e.eval(x.Args[i])
			if pv != nil {
				pv[p] = n.vars[p]
			}
		}
		n.preVars = pv
		n.where = d.Where
		return n.eval(d.Body)
	}
	if r, ok := g.C.Recs[id.Name]; ok {
		return e.recCall(r, x)
	}
	e.fail("unknown spec function %s", id.Name)
	return nil
}

// accessor: trivial method `func (t T) M() R { return t.f }` on a concrete type
func (e *env) accessor(r *V, name string) *V {
	e.fail("method %s on concrete type %s: use fields", name, TS(r.ty))
	return nil
}

type recInfo struct {
	params   []types.Type
	heap     []string
	res      types.Type
	declArgs string
}

func (g *Gen) recSorts(ri *recInfo) []string {
	var srts []string
	for _, t := range ri.params {
		if sl, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
			srts = append(srts, "(Array Int "+g.sort(sl.Elem())+")", SliceSort)
		} else {
			srts = append(srts, g.sort(t))
		}
	}
	for _, k := range ri.heap {
		srts = append(srts, g.keySort[k])
	}
	return srts
}

func (g *Gen) recInfo(r *RecFn) *recInfo {
	if ri, ok := g.recs2[r.Name]; ok {
		return ri
	}
	ri := &recInfo{}
	for _, t := range r.PTypes {
		ri.params = append(ri.params, g.typeByText(t, r.Where))
	}
	ri.res = g.typeByText(r.Res, r.Where)
	g.recs2[r.Name] = ri
	f1, f0 := q("rec."+r.Name), q("rec0."+r.Name)
	if r.Body == nil {
		g.pre = append(g.pre, fmt.Sprintf("(declare-fun %s (%s) %s)", f1, strings.Join(g.recSorts(ri), " "), g.sort(ri.res)))
		return ri
	}
	// first pass: discover heap keys
	mkEnv := func(tag string) (*env, []string, []string) {
		en := &env{g: g, vars: map[string]*V{}, st: State{"$bound": "1"}, where: r.Where, fuel0: r.Name}
		en.old = en.st
		var decls, names []string
		for i, p := range r.Params {
			t := ri.params[i]
			n := q("a." + p + tag)
			if sl, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
				rn := q("row." + p + tag)
				decls = append(decls, fmt.Sprintf("(%s (Array Int %s))", rn, g.sort(sl.Elem())), fmt.Sprintf("(%s Slice)", n))
				names = append(names, rn, n)
				en.vars[p] = &V{t: n, ty: t, row: rn}
			} else {
				decls = append(decls, fmt.Sprintf("(%s %s)", n, g.sort(t)))
				names = append(names, n)
				en.vars[p] = g.mkV(n, t)
			}
		}
		return en, decls, names
	}
	saved := g.boundKeys
	g.boundKeys = map[string]bool{}
	en, _, _ := mkEnv("")
	// iterate since recursive calls add heap arguments
	en.eval(r.Body)
	var ks []string
	for k := range g.boundKeys {
		ks = append(ks, k)
	}
	sortStrings(ks)
	ri.heap = ks
	g.boundKeys = saved
	if g.boundKeys != nil {
		for _, k := range ks {
			g.boundKeys[k] = true
		}
	}
	srts := strings.Join(g.recSorts(ri), " ")
	g.pre = append(g.pre, fmt.Sprintf("(declare-fun %s (%s) %s)", f1, srts, g.sort(ri.res)), fmt.Sprintf("(declare-fun %s (%s) %s)", f0, srts, g.sort(ri.res)))
	en, decls, names := mkEnv("")
	for _, k := range ks {
		decls = append(decls, fmt.Sprintf("(%s %s)", q("hb."+k), g.keySort[k]))
		names = append(names, q("hb."+k))
	}
	sb := g.boundKeys
	g.boundKeys = map[string]bool{}
	body := en.eval(r.Body).t
	g.boundKeys = sb
	ap := app(f1, names...)
	ap0 := app(f0, names...)
	g.pre = append(g.pre, fmt.Sprintf("(assert (forall (%s) (! (and (= %s %s) (= %s %s)) :pattern (%s))))", strings.Join(decls, " "), ap, body, ap, ap0, ap))
	if r.Ext {
		g.extLemma(r, ri)
	}
	return ri
}

// extLemma emits the extensionality lemma of a recursive function over slices
// (proved by induction as a separate obligation).
func (g *Gen) extLemma(r *RecFn, ri *recInfo) {
	f1 := q("rec." + r.Name)
	last := len(r.Params) - 1
	var decls, n1, n2, hyp []string
	k := q("a." + r.Params[last])
	hset := map[string]bool{}
	if r.View != "" {
		for _, h := range ri.heap {
			hset[q("hb."+h)] = true
		}
	}
	h2 := func(n string) string {
		if strings.HasSuffix(n, "|") {
			return n[:len(n)-1] + "~2|"
		}
		return n + "~2"
	}
	heap2 := func(x string) (string, bool) {
		if hset[x] {
			return h2(x), true
		}
		return "", false
	}
	for i, p := range r.Params {
		t := ri.params[i]
		if sl, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
			s := g.sort(sl.Elem())
			ra, rb, sa, sb := q("row."+p+"1"), q("row."+p+"2"), q("a."+p+"1"), q("a."+p+"2")
			decls = append(decls, "("+ra+" (Array Int "+s+"))", "("+rb+" (Array Int "+s+"))", "("+sa+" Slice)", "("+sb+" Slice)")
			n1 = append(n1, ra, sa)
			n2 = append(n2, rb, sb)
			same := fmt.Sprintf("(= (select %s (ix (s.off %s) j)) (select %s (ix (s.off %s) j)))", ra, sa, rb, sb)
			if r.View != "" {
				en := &env{g: g, vars: map[string]*V{}, st: State{"$bound": "1"}, where: r.Where}
				en.old = en.st
				en.vars["view.elem"] = g.mkV(fmt.Sprintf("(select %s (ix (s.off %s) j))", ra, sa), sl.Elem())
				saved := g.boundKeys
				g.boundKeys = map[string]bool{}
				v := en.eval(&ast.CallExpr{Fun: ast.NewIdent(r.View), Args: []ast.Expr{ast.NewIdent("view.elem")}}).t
				g.boundKeys = saved
				same = and(same, eq(v, subst(v, heap2)))
			}
			bound := fmt.Sprintf("(* %d %s)", r.Scale, k)
			if r.All {
				bound = "(s.len " + sa + ")"
				hyp = append(hyp, eq("(s.len "+sa+")", "(s.len "+sb+")"))
			}
			hyp = append(hyp, fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) %s) :pattern ((select %s (ix (s.off %s) j))) :pattern ((select %s (ix (s.off %s) j)))))", bound, same, ra, sa, rb, sb))
		} else {
			n := q("a." + p)
			decls = append(decls, "("+n+" "+g.sort(t)+")")
			n1 = append(n1, n)
			n2 = append(n2, n)
		}
	}
	for _, h := range ri.heap {
		decls = append(decls, "("+q("hb."+h)+" "+g.keySort[h]+")")
		n1 = append(n1, q("hb."+h))
		if r.View != "" {
			decls = append(decls, "("+h2(q("hb."+h))+" "+g.keySort[h]+")")
			n2 = append(n2, h2(q("hb."+h)))
		} else {
			n2 = append(n2, q("hb."+h))
		}
	}
	concl := eq(app(f1, n1...), app(f1, n2...))
	stmt := imp(and(hyp...), concl)
	// proof obligation
	sub := func(t, repl string) string {
		return subst(t, func(x string) (string, bool) {
			if x == k {
				return repl, true
			}
			return "", false
		})
	}
	var consts []string
	for _, d := range decls {
		consts = append(consts, "(declare-const "+d[1:])
	}
	for i := range consts {
		consts[i] = strings.TrimSuffix(consts[i], ")") + ")"
	}
	ih := imp("(> "+k+" 0)", sub(stmt, "(- "+k+" 1)"))
	if r.All {
		// strong induction
		var m1, m2 []string
		for i := range n1 {
			m1, m2 = append(m1, sub(n1[i], "kk")), append(m2, sub(n2[i], "kk"))
		}
		a1, a2 := app(f1, m1...), app(f1, m2...)
		z1, z2 := app(q("rec0."+r.Name), m1...), app(q("rec0."+r.Name), m2...)
		ih = imp(and(hyp...), fmt.Sprintf("(forall ((kk Int)) (! (=> (< kk %s) (and %s %s)) :pattern (%s) :pattern (%s) :pattern (%s) :pattern (%s)))", k, eq(a1, a2), eq(z1, z2), a1, a2, z1, z2))
		ih = imp("(> "+k+" 0)", ih)
	}
	g.sideObls = append(g.sideObls, sideObl{
		name:  "lemma:ext:" + r.Name,
		lines: append(consts, "(assert "+ih+")", "(assert (not "+stmt+"))"),
		npre:  len(g.pre),
	})
	g.pre = append(g.pre, fmt.Sprintf("(assert (forall (%s) (! %s :pattern (%s %s))))", strings.Join(decls, " "), stmt, app(f1, n1...), app(f1, n2...)))
	// the same fact about a term that is not unfolded any further (f0 is equal to f1)
	f0 := q("rec0." + r.Name)
	stmt0 := imp(and(hyp...), eq(app(f1, n1...), app(f0, n2...)))
	g.pre = append(g.pre, fmt.Sprintf("(assert (forall (%s) (! %s :pattern (%s %s))))", strings.Join(decls, " "), stmt0, app(f1, n1...), app(f0, n2...)))
}

type sideObl struct {
	name  string
	lines []string
	npre  int
	text  string
}

func (e *env) recCall(r *RecFn, x *ast.CallExpr) *V {
	g := e.g
	ri := g.recInfo(r)
	if len(x.Args) != len(ri.params) {
		e.fail("%s: wrong number of arguments", r.Name)
	}
	var ts []string
	for i, a := range x.Args {
		v := e.eval(a)
		if _, ok := types.Unalias(ri.params[i]).Underlying().(*types.Slice); ok {
			ts = append(ts, e.rowOf(v), v.t)
		} else {
			if v.ty == types.Typ[types.UntypedNil] {
				e.fail("nil argument")
			}
			ts = append(ts, v.t)
		}
	}
	for _, k := range ri.heap {
		ts = append(ts, g.get(e.st, k))
	}
	fn := "rec." + r.Name
	if e.fuel0 == r.Name {
		fn = "rec0." + r.Name
	}
	return g.mkV(app(q(fn), ts...), ri.res)
}

// emitLemmas adds user lemmas and axioms whose functions are in use.
func (g *Gen) emitLemmas() {
	for _, lm := range g.C.Lemmas {
		if g.lemmasIn[lm.Name] {
			continue
		}
		// only when every rec/spec function in the trigger is already in use
		need := map[string]bool{}
		for _, t := range lm.Trig {
			ast.Inspect(t, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok {
						if _, isRec := g.C.Recs[id.Name]; isRec {
							need[id.Name] = true
						}
					}
				}
				return true
			})
		}
		ok := true
		for n := range need {
			if _, in := g.recs2[n]; !in {
				ok = false
			}
		}
		if !ok {
			continue
		}
		g.lemmasIn[lm.Name] = true
		g.emitLemma(lm)
	}
}

func (g *Gen) emitLemma(lm *Lemma) {
	mk := func() (*env, []string) {
		en := &env{g: g, vars: map[string]*V{}, st: State{"$bound": "1"}, where: lm.Where}
		en.old = en.st
		var decls []string
		for i, p := range lm.Params {
			t := g.typeByText(lm.PTypes[i], lm.Where)
			n := q("l." + p)
			if sl, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
				rn := q("lrow." + p)
				decls = append(decls, fmt.Sprintf("(%s (Array Int %s))", rn, g.sort(sl.Elem())), fmt.Sprintf("(%s Slice)", n))
				en.vars[p] = &V{t: n, ty: t, row: rn}
			} else {
				decls = append(decls, fmt.Sprintf("(%s %s)", n, g.sort(t)))
				en.vars[p] = g.mkV(n, t)
			}
		}
		return en, decls
	}
	saved := g.boundKeys
	g.boundKeys = map[string]bool{}
	en, decls := mk()
	body := en.eval(lm.Body).t
	var trs []string
	for _, t := range lm.Trig {
		trs = append(trs, en.eval(t).t)
	}
	var ks []string
	for k := range g.boundKeys {
		ks = append(ks, k)
	}
	sortStrings(ks)
	g.boundKeys = saved
	for _, k := range ks {
		decls = append(decls, fmt.Sprintf("(%s %s)", q("hb."+k), g.keySort[k]))
	}
	if !lm.Axiom {
		var consts []string
		for _, d := range decls {
			consts = append(consts, "(declare-const "+d[1:])
		}
		lines := consts
		if lm.By != "" {
			k := q("l." + lm.By)
			sub := func(t, repl string) string {
				return subst(t, func(x string) (string, bool) {
					if x == k {
						return repl, true
					}
					return "", false
				})
			}
			var others []string
			for _, d := range decls {
				if !strings.HasPrefix(d, "("+k+" ") {
					others = append(others, d)
				}
			}
			ihb := sub(body, "(- "+k+" 1)")
			var st []string
			for _, t := range trs {
				st = append(st, sub(t, "(- "+k+" 1)"))
			}
			ih := ihb
			lines = append(lines, "(assert "+imp("(> "+k+" 0)", ih)+")")
			_ = others
			_ = st
		}
		lines = append(lines, "(assert (not "+body+"))")
		g.sideObls = append(g.sideObls, sideObl{name: "lemma:" + lm.Name, lines: lines, npre: len(g.pre), text: lm.Text})
	} else {
		g.Assumed["axiom "+lm.Name+": "+lm.Text] = true
	}
	pat := ""
	if len(trs) > 0 {
		pat = " :pattern (" + strings.Join(trs, " ") + ")"
	}
	g.pre = append(g.pre, fmt.Sprintf("(assert (forall (%s) (! %s%s)))", strings.Join(decls, " "), body, pat))
}

type place struct{ key, ref string }

func (e *env) places(c *Clause) []place {
	g := e.g
	e2 := *e
	e2.where = c.Where
	switch x := c.Expr.(type) {
	case *ast.Ident:
		if _, ok := e.cells[x.Name]; ok {
			return nil // a captured variable: see cellMods
		}
		if k, _ := e.ghost(x.Name); k != "" {
			return []place{{k, ""}}
		}
	case *ast.SelectorExpr:
		v := e2.eval(x.X)
		pt, ok := types.Unalias(v.ty).Underlying().(*types.Pointer)
		if !ok {
			e2.fail("modifies %s", c.Text)
		}
		u := types.Unalias(pt.Elem()).Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == x.Sel.Name {
				return []place{{g.hkey(pt.Elem(), i), v.t}}
			}
		}
	case *ast.CallExpr:
		fn := x.Fun.(*ast.Ident).Name
		switch fn {
		case "elems":
			v := e2.eval(x.Args[0])
			return []place{{g.ekey(types.Unalias(v.ty).Underlying().(*types.Slice).Elem()), "(s.base " + v.t + ")"}}
		case "newelems":
			return []place{{g.ekey(e2.typ(x.Args[0])), freshRef}}
		case "anyelems":
			return []place{{g.ekey(e2.typ(x.Args[0])), ""}}
		case "anyfield": // anyfield(T, F): the field F of any object of type T
			t := e2.typ(x.Args[0])
			u := types.Unalias(t).Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == x.Args[1].(*ast.Ident).Name {
					return []place{{g.hkey(t, i), ""}}
				}
			}
		case "new", "anyof":
			ref := freshRef
			if fn == "anyof" {
				ref = ""
			}
			t := e2.typ(x.Args[0])
			if u, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
				var ps []place
				for i := 0; i < u.NumFields(); i++ {
					ps = append(ps, place{g.hkey(t, i), ref})
				}
				return ps
			}
			return []place{{g.ckey(t), ref}}
		case "mapof", "newmap", "anymap":
			if fn != "mapof" {
				ref := freshRef
				if fn == "anymap" {
					ref = ""
				}
				d, v, l := g.mkeys(e2.typ(x.Args[0]))
				return []place{{d, ref}, {v, ref}, {l, ref}}
			}
			m := e2.eval(x.Args[0])
			d, v, l := g.mkeys(m.ty)
			return []place{{d, m.t}, {v, m.t}, {l, m.t}}
		case "allof": // every field of the object
			v := e2.eval(x.Args[0])
			pt := types.Unalias(v.ty).Underlying().(*types.Pointer)
			var ps []place
			if u, ok := types.Unalias(pt.Elem()).Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					ps = append(ps, place{g.hkey(pt.Elem(), i), v.t})
				}
				return ps
			}
			return []place{{g.ckey(pt.Elem()), v.t}}
		}
	}
	e2.fail("modifies %s", c.Text)
	return nil
}

// cellsOf maps the captured variables of a closure to their cells.
func cellsOf(fn *ssa.Function, bind []*V) map[string]*Addr {
	m := map[string]*Addr{}
	for i, fv := range fn.FreeVars {
		if i < len(bind) && bind[i] != nil && bind[i].addr != nil {
			m[fv.Name()] = bind[i].addr
		}
	}
	return m
}

// cellMods: the captured variables a contract allows to change.
func cellMods(con *Contract) map[string]bool {
	m := map[string]bool{}
	for _, c := range con.Mod {
		if id, ok := c.Expr.(*ast.Ident); ok {
			m[id.Name] = true
		}
	}
	return m
}
