package vc

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const freshRef = "$fresh"

func inRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(fn), RepoModule)
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

func (f *frame) call(in ssa.Instruction, cc *ssa.CallCommon, c *cur) *V {
	g := f.g
	var resTy types.Type
	if v, ok := in.(ssa.Value); ok {
		resTy = v.Type()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return f.builtin(in, b, cc, c, resTy)
	}
	var args []*V
	if cc.IsInvoke() {
		recv := f.val(cc.Value, c)
		for _, a := range cc.Args {
			args = append(args, f.val(a, c))
		}
		return f.invoke(in, recv, cc.Method, args, c, resTy)
	}
	fv := f.val(cc.Value, c)
	for _, a := range cc.Args {
		args = append(args, f.val(a, c))
	}
	if fv.clo != nil {
		return f.callFn(in, fv.clo.fn, args, fv.clo.bind, c, resTy)
	}
	// dynamic call: contract by signature
	key := "functype " + SigKey(cc.Signature())
	con := g.C.For(key)
	if con == nil {
		unsup("dynamic call of %s in %s", TS(cc.Signature()), f.fn)
	}
	f.safety(c, "(not (= "+fv.t+" 0))", "call of nil function", in)
	return f.callContract(in, con, nil, args, c, resTy)
}

func (f *frame) invoke(in ssa.Instruction, recv *V, m *types.Func, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	if recv.dyn != nil {
		if fn := g.P.method(recv.dyn.ty, m); fn != nil {
			return f.callFn(in, fn, append([]*V{recv.dyn}, args...), nil, c, resTy)
		}
	}
	f.safety(c, "(not (= (typeof "+recv.t+") 0))", "method call on nil interface", in)
	it := types.Unalias(recv.ty)
	key := "iface " + TS(it) + "." + m.Name()
	con := g.C.For(key)
	if con != nil && con.Flags["split"] {
		return f.invokeSplit(in, recv, it, m, args, c, resTy)
	}
	if con != nil && !con.Flags["pure"] {
		return f.callContract(in, con, nil, append([]*V{recv}, args...), c, resTy)
	}
	if con == nil {
		if p := g.P.ifacePurity(g.C, it, m); p != "" {
			unsup("interface call %s without contract (%s)", key, p)
		}
		g.Assumed["interface method "+TS(it)+"."+m.Name()+" is a pure function of its receiver (checked: no implementation in the repository writes memory; implementations outside it assumed likewise)"] = true
	} else {
		g.Assumed["interface method "+TS(it)+"."+m.Name()+" is a pure function of its receiver"] = true
	}
	srts := []string{"Any"}
	ts := []string{recv.t}
	for _, a := range args {
		a = f.materialize(a, c, nil)
		srts = append(srts, g.sort(a.ty))
		ts = append(ts, a.t)
	}
	v := g.ufResults("m."+m.Name(), srts, ts, resTy)
	f.assumeResult(v, c)
	if con != nil {
		f.assumePost(con, append([]*V{recv}, args...), v, c, c.st)
	}
	return v
}

func (f *frame) assumeResult(v *V, c *cur) {
	if v == nil {
		return
	}
	if v.tup != nil {
		for _, x := range v.tup {
			f.assumeResult(x, c)
		}
		return
	}
	f.g.assumeType(c.guard, v.t, v.ty, c.st)
}

// ufResults builds a deterministic result for a pure function.
func (g *Gen) ufResults(name string, srts, ts []string, resTy types.Type) *V {
	if resTy == nil {
		return nil
	}
	if tp, ok := resTy.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return &V{ty: resTy, tup: []*V{}}
		}
		v := &V{ty: resTy}
		for i := 0; i < tp.Len(); i++ {
			fn := g.uf(fmt.Sprintf("%s#%d/%d", name, i, len(srts)), srts, g.sort(tp.At(i).Type()))
			v.tup = append(v.tup, g.mkV(g.define("r", g.sort(tp.At(i).Type()), app(fn, ts...)), tp.At(i).Type()))
		}
		return v
	}
	fn := g.uf(fmt.Sprintf("%s/%d", name, len(srts)), srts, g.sort(resTy))
	return g.mkV(g.define("r", g.sort(resTy), app(fn, ts...)), resTy)
}

func (f *frame) havocResults(c *cur, resTy types.Type) *V {
	g := f.g
	if resTy == nil {
		return nil
	}
	if tp, ok := resTy.(*types.Tuple); ok {
		v := &V{ty: resTy, tup: []*V{}}
		for i := 0; i < tp.Len(); i++ {
			x := g.mkV(g.freshSym("res", g.sort(tp.At(i).Type())), tp.At(i).Type())
			v.tup = append(v.tup, x)
		}
		f.assumeResult(v, c)
		return v
	}
	v := g.mkV(g.freshSym("res", g.sort(resTy)), resTy)
	f.assumeResult(v, c)
	return v
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	s := ms.Lookup(m.Pkg(), m.Name())
	if s == nil {
		return nil
	}
	return p.Prog.MethodValue(s)
}

// implementers of an interface among the module's named types
func (p *Program) implementers(it types.Type) []types.Type {
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, n := range p.Named {
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(n, iface) {
			out = append(out, n)
		}
		if pt := types.NewPointer(n); types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	return out
}

// ifacePurity: "" when no implementation in the repository writes memory and
// (for pointer receivers) the result cannot depend on mutable heap state.
func (p *Program) ifacePurity(cs *Contracts, it types.Type, m *types.Func) string {
	for _, t := range p.implementers(it) {
		fn := p.method(t, m)
		if fn == nil {
			continue
		}
		if why := p.pureFn(fn, 0); why != "" {
			return TS(t) + ": " + why
		}
	}
	return ""
}

func (p *Program) pureFn(fn *ssa.Function, depth int) string {
	if depth > 6 {
		return "call depth"
	}
	if len(fn.Blocks) == 0 {
		if pureExtern(FuncKey(fn)) {
			return ""
		}
		return "external " + FuncKey(fn)
	}
	if !inRepo(fn) && fn.Synthetic == "" {
		if pureExtern(FuncKey(fn)) {
			return ""
		}
		return "external " + FuncKey(fn)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				root := in.Addr
			walk:
				for {
					switch x := root.(type) {
					case *ssa.FieldAddr:
						root = x.X
					case *ssa.IndexAddr:
						root = x.X
					default:
						break walk
					}
				}
				if _, ok := root.(*ssa.Alloc); !ok {
					return "writes memory in " + FuncKey(fn)
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Send, *ssa.Select:
				return "effect in " + FuncKey(fn)
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				if in.Call.IsInvoke() {
					continue
				}
				cal := in.Call.StaticCallee()
				if cal == nil {
					return "dynamic call in " + FuncKey(fn)
				}
				if why := p.pureFn(cal, depth+1); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// invokeSplit performs a case analysis over the implementations in the repository.
func (f *frame) invokeSplit(in ssa.Instruction, recv *V, it types.Type, m *types.Func, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	var gs []string
	var sts []State
	var vs []*V
	var tags []string
	for _, t := range g.P.implementers(it) {
		if t2, ok := t.(*types.Pointer); ok && types.Implements(t2.Elem(), it.Underlying().(*types.Interface)) {
			// pointer to a value type that implements too: only boxed if code does so
			if !g.P.boxedTypes()[TS(t)] {
				continue
			}
		} else if !g.P.boxedTypes()[TS(t)] {
			continue
		}
		fn := g.P.method(t, m)
		if fn == nil {
			continue
		}
		_, unbox := g.boxes(t)
		tg := fmt.Sprint(g.tag(t))
		cond := eq("(typeof "+recv.t+")", tg)
		tags = append(tags, cond)
		sub := &cur{guard: g.define("case", "Bool", and(c.guard, cond)), st: c.st.clone()}
		rv := g.mkV(g.define("recv", g.sort(t), app(unbox, recv.t)), t)
		g.assumeType(sub.guard, rv.t, t, sub.st)
		if _, ok := t.(*types.Pointer); ok {
			g.assume(sub.guard, "(not (= "+rv.t+" 0))")
			g.Assumed["no nil pointer is boxed in interface "+TS(it)] = true
		}
		r := f.callFn(in, fn, append([]*V{rv}, args...), nil, sub, resTy)
		if sub.dead {
			continue
		}
		gs = append(gs, sub.guard)
		sts = append(sts, sub.st)
		vs = append(vs, r)
	}
	g.Assumed["values of interface "+TS(it)+" are of types this repository boxes"] = true
	g.assume(c.guard, or(tags...))
	if len(gs) == 0 {
		c.dead = true
		c.guard = "false"
		return f.havocResults(c, resTy)
	}
	c.st = g.mergeStates(gs, sts)
	c.guard = g.define("merge", "Bool", or(gs...))
	if resTy == nil {
		return nil
	}
	if tp, ok := resTy.(*types.Tuple); ok {
		out := &V{ty: resTy, tup: []*V{}}
		for i := 0; i < tp.Len(); i++ {
			var xs []*V
			for _, v := range vs {
				xs = append(xs, v.tup[i])
			}
			out.tup = append(out.tup, g.mergeVals(gs, xs, c.st))
		}
		return out
	}
	return g.mergeVals(gs, vs, c.st)
}

// boxedTypes: types the repository converts to some interface.
func (p *Program) boxedTypes() map[string]bool {
	if p.boxed != nil {
		return p.boxed
	}
	p.boxed = map[string]bool{}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					p.boxed[TS(mi.X.Type())] = true
				}
			}
		}
	}
	return p.boxed
}

func (f *frame) callFn(in ssa.Instruction, fn *ssa.Function, args []*V, bind []*V, c *cur, resTy types.Type) *V {
	g := f.g
	key := FuncKey(fn)
	con := g.C.For(key)
	if fn.Synthetic != "" && con == nil && len(fn.Blocks) > 0 && !strings.HasPrefix(fn.Synthetic, "instance") {
		// wrappers, bound methods, thunks: inline
		return f.inline(in, fn, args, bind, c, resTy)
	}
	if con != nil && con.Flags["havoc"] {
		g.Assumed["assumed contract on "+con.Key+": overwrites what its arguments point to"] = true
		for _, a := range args {
			f.havocReach(f.materialize(a, c, nil), c)
		}
		v := f.havocResults(c, resTy)
		f.assumePost(con, args, v, c, c.st)
		return v
	}
	if con != nil && !con.Flags["inline"] {
		if con.Flags["pure"] && (con.Extern || !inRepo(fn)) {
			return f.pureCall(key, con, args, c, resTy)
		}
		for i := range args {
			args[i] = f.materialize(args[i], c, nil)
		}
		if len(fn.FreeVars) > 0 {
			for i, b := range bind {
				if b == nil || b.addr == nil || i >= len(fn.FreeVars) {
					return f.inline(in, fn, args, bind, c, resTy)
				}
			}
			g.cellsFor[con] = cellsOf(fn, bind)
		}
		return f.callContract(in, con, fn, args, c, resTy)
	}
	if inRepo(fn) && len(fn.Blocks) > 0 {
		return f.inline(in, fn, args, bind, c, resTy)
	}
	for _, a := range args {
		if a.clo != nil {
			return f.higherOrder(key, args, c, resTy)
		}
	}
	if key == "fmt.Sprintf" {
		if v := f.sprintf(in, args, c, resTy); v != nil {
			return v
		}
	}
	if pureExtern(key) {
		return f.pureCall(key, nil, args, c, resTy)
	}
	// unknown external: arbitrary result, may overwrite elements of slices passed to it
	g.Assumed["external "+key+": arbitrary result, no effect on repository state other than slices and pointers passed to it, no panic"] = true
	for _, a := range args {
		a = f.materialize(a, c, nil)
		f.havocReach(a, c)
	}
	return f.havocResults(c, resTy)
}

// higherOrder: an external function that is given a closure may run it any
// number of times, so whatever the closure may write is arbitrary afterwards.
func (f *frame) higherOrder(key string, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	g.Assumed["external "+key+": arbitrary result; runs the function given to it any number of times, no other effect"] = true
	for _, a := range args {
		if a.clo == nil {
			a = f.materialize(a, c, nil)
			f.havocReach(a, c)
			continue
		}
		if why := closureWrites(a.clo.fn); why != "" {
			unsup("closure %s given to %s: %s", FuncKey(a.clo.fn), key, why)
		}
		for _, b := range a.clo.bind {
			if b == nil {
				unsup("closure %s given to %s: captured value", FuncKey(a.clo.fn), key)
			}
			ad := b.addr
			if ad == nil {
				ad = f.addrOf(b, c)
			}
			v := g.freshSym("hv", g.sort(ad.ty))
			g.storeAt(c.st, ad, v)
			g.assumeType(c.guard, v, ad.ty, c.st)
			if sl, ok := types.Unalias(ad.ty).Underlying().(*types.Slice); ok {
				k := g.ekey(sl.Elem())
				c.st[k] = g.freshSym("hv", g.keySort[k])
				g.record(k, "")
			}
		}
	}
	al := g.freshSym("$alloc", "Int")
	g.emit("(assert (>= " + al + " " + g.get(c.st, g.allocKey()) + "))")
	c.st[g.allocKey()] = al
	g.record("$alloc", "")
	return f.havocResults(c, resTy)
}

// closureWrites: "" when the function writes nothing but the variables it
// captured, what it allocated itself, and elements it appends to captured slices.
func closureWrites(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch x := in.Addr.(type) {
				case *ssa.FreeVar, *ssa.Alloc:
				case *ssa.IndexAddr:
					if _, ok := x.X.(*ssa.Alloc); !ok {
						return "writes memory"
					}
				case *ssa.FieldAddr:
					if _, ok := x.X.(*ssa.Alloc); !ok {
						return "writes memory"
					}
				default:
					return "writes memory"
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
				return "effect"
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok || in.Call.IsInvoke() {
					continue
				}
				cal := in.Call.StaticCallee()
				if cal == nil {
					return "dynamic call"
				}
				if inRepo(cal) || !pureExtern(FuncKey(cal)) {
					return "calls " + FuncKey(cal)
				}
			}
		}
	}
	return ""
}

func (f *frame) havocReach(a *V, c *cur) {
	g := f.g
	if a.dyn != nil {
		f.havocReach(a.dyn, c)
		return
	}
	if a.ty == nil {
		return
	}
	switch u := types.Unalias(a.ty).Underlying().(type) {
	case *types.Slice:
		k := g.ekey(u.Elem())
		v := g.freshSym("hv", elemSort(g.keySort[k]))
		g.set(c.st, k, store(g.get(c.st, k), "(s.base "+a.t+")", v))
		g.record(k, "(s.base "+a.t+")")
	case *types.Pointer:
		if a.addr != nil {
			v := g.freshSym("hv", g.sort(a.addr.ty))
			g.storeAt(c.st, a.addr, v)
			g.assumeType(c.guard, v, a.addr.ty, c.st)
			return
		}
		ad := f.addrOf(a, c)
		v := g.freshSym("hv", g.sort(ad.ty))
		g.storeAt(c.st, ad, v)
		g.assumeType(c.guard, v, ad.ty, c.st)
	}
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "errors.", "fmt.Sprint", "fmt.Errorf", "github.com/pkg/errors.", "encoding/hex.", "(encoding/base32.", "(*encoding/base32.Encoding).", "(*encoding/base64.Encoding).", "(encoding/base64.", "path/filepath.", "net/url.", "(*net/url.URL).", "math.", "bytes.", "html.", "(reflect", "reflect.", "(time.Duration)", "encoding/binary.", "os.Getenv"}

func pureExtern(key string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func (f *frame) pureCall(key string, con *Contract, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	if v := f.decCall(key, args, resTy); v != nil {
		return v
	}
	var srts, ts []string
	add := func(s, t string) { srts = append(srts, s); ts = append(ts, t) }
	name := "x." + key
	for _, a := range args {
		if a.lit {
			name += fmt.Sprintf(":%d", len(a.lits))
			for _, x := range a.lits {
				add(g.sort(x.ty), x.t)
			}
			continue
		}
		if a.addr != nil && a.t == "" {
			add(g.sort(a.addr.ty), g.load(c.st, a.addr))
			continue
		}
		if sl, ok := types.Unalias(a.ty).Underlying().(*types.Slice); ok {
			k := g.ekey(sl.Elem())
			add(elemSort(g.keySort[k]), sel(g.get(c.st, k), "(s.base "+a.t+")"))
			add("Int", "(s.off "+a.t+")")
			add("Int", "(s.len "+a.t+")")
			continue
		}
		add(g.sort(a.ty), a.t)
	}
	g.Assumed["external "+key+" is a pure, total function of its arguments"] = true
	v := g.ufResults(name, srts, ts, resTy)
	// results that are slices are fresh
	fix := func(x *V) *V {
		if sl, ok := types.Unalias(x.ty).Underlying().(*types.Slice); ok {
			k := g.ekey(sl.Elem())
			b := g.alloc(c.st)
			rowf := g.uf(name+".row", srts, elemSort(g.keySort[k]))
			lenf := g.uf(name+".len", srts, "Int")
			g.assume(c.guard, "(>= "+app(lenf, ts...)+" 0)")
			g.set(c.st, k, store(g.get(c.st, k), b, app(rowf, ts...)))
			g.record(k, freshRef)
			n := app(lenf, ts...)
			return g.mkV(g.define("rs", SliceSort, "(mkSlice "+b+" 0 "+n+" "+n+")"), x.ty)
		}
		return x
	}
	if v != nil && v.tup != nil {
		for i := range v.tup {
			v.tup[i] = fix(v.tup[i])
		}
	} else if v != nil {
		v = fix(v)
	}
	f.assumeResult(v, c)
	if con != nil {
		var as []*V
		for _, a := range args {
			as = append(as, a)
		}
		f.assumePost(con, as, v, c, c.st)
	}
	return v
}

func (f *frame) inline(in ssa.Instruction, fn *ssa.Function, args []*V, bind []*V, c *cur, resTy types.Type) *V {
	g := f.g
	key := FuncKey(fn)
	depth := 0
	for p := f; p != nil; p = p.parent {
		depth++
		if p.fn == fn {
			unsup("recursive function %s needs a contract", key)
		}
	}
	if depth > g.MaxInline {
		unsup("inlining too deep at %s", key)
	}
	g.Inlined[key] = true
	nf := g.newFrame(fn, f)
	for i, a := range args {
		if a.lit {
			args[i] = f.materialize(a, c, nil)
		}
	}
	g.runFunc(nf, args, bind, c)
	f.panics = append(f.panics, nf.panics...)
	if len(nf.rets) == 0 {
		c.dead = true
		c.guard = "false"
		return f.deadResult(resTy)
	}
	m := g.mergeExits(nf.rets)
	c.guard, c.st = m.guard, m.st
	if resTy == nil {
		return nil
	}
	if tp, ok := resTy.(*types.Tuple); ok {
		v := &V{ty: tp, tup: m.vals}
		if v.tup == nil {
			v.tup = []*V{}
		}
		return v
	}
	if len(m.vals) == 1 {
		return m.vals[0]
	}
	return nil
}

func (f *frame) deadResult(resTy types.Type) *V {
	g := f.g
	if resTy == nil {
		return nil
	}
	if tp, ok := resTy.(*types.Tuple); ok {
		v := &V{ty: tp, tup: []*V{}}
		for i := 0; i < tp.Len(); i++ {
			v.tup = append(v.tup, g.mkV(g.zero(tp.At(i).Type()), tp.At(i).Type()))
		}
		return v
	}
	return g.mkV(g.zero(resTy), resTy)
}

// summaries -----------------------------------------------------------------------

type summary struct {
	params []string            // parameter symbols
	keys   map[string][]string // key -> refs (nil entry = unknown)
	fresh  map[string]bool     // key may be written at fresh references
	whole  map[string]bool     // key written at unknown references
	alloc  bool
	panics bool
}

func (g *Gen) summarize(fn *ssa.Function, con *Contract) *summary {
	key := FuncKey(fn)
	if s, ok := g.summaries[key]; ok {
		if s == nil {
			unsup("recursive function %s needs explicit modifies", key)
		}
		return s
	}
	g.summaries[key] = nil
	nItems, nObls := len(g.items), len(g.Obls)
	g.dry++
	saved := g.recs
	rec := &recorder{}
	g.recs = []*recorder{rec}
	savedAssumed := map[string]bool{}
	for k := range g.Assumed {
		savedAssumed[k] = true
	}
	s := &summary{keys: map[string][]string{}, fresh: map[string]bool{}, whole: map[string]bool{}}
	func() {
		defer func() {
			g.recs = saved
			g.dry--
			if r := recover(); r != nil {
				delete(g.summaries, key)
				panic(r)
			}
		}()
		var args []*V
		for _, p := range fn.Params {
			sy := g.freshSym("sp."+p.Name(), g.sort(p.Type()))
			s.params = append(s.params, sy)
			args = append(args, g.mkV(sy, p.Type()))
		}
		startN := g.n
		nf := g.newFrame(fn, nil)
		nf.rtexit = false
		c := &cur{guard: "true", st: State{}}
		g.runFunc(nf, args, nil, c)
		s.panics = len(nf.panics) > 0
		for _, w := range rec.writes {
			if strings.HasPrefix(w.key, "L.") || strings.HasPrefix(w.key, "vis.") || strings.HasPrefix(w.key, "pos.") {
				continue
			}
			if w.key == "$alloc" {
				s.alloc = true
				continue
			}
			if w.ref == freshRef || g.allocRefs[w.ref] {
				s.fresh[w.key] = true
				continue
			}
			if w.ref == "" {
				s.whole[w.key] = true
				continue
			}
			e, ok := g.expandOld(w.ref, startN)
			if !ok {
				s.whole[w.key] = true
				continue
			}
			dup := false
			for _, x := range s.keys[w.key] {
				if x == e {
					dup = true
				}
			}
			if !dup {
				s.keys[w.key] = append(s.keys[w.key], e)
			}
		}
	}()
	g.items = g.items[:nItems]
	g.Obls = g.Obls[:nObls]
	g.Assumed = savedAssumed
	g.summaries[key] = s
	return s
}

// subst replaces symbols of a term.
func subst(t string, m func(string) (string, bool)) string {
	var sb strings.Builder
	i := 0
	for i < len(t) {
		c := t[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			sb.WriteByte(c)
			i++
			continue
		}
		j := i
		if c == '|' {
			j = i + 1
			for j < len(t) && t[j] != '|' {
				j++
			}
			j++
		} else {
			for j < len(t) && t[j] != '(' && t[j] != ')' && t[j] != ' ' && t[j] != '\n' {
				j++
			}
		}
		s := t[i:j]
		if r, ok := m(s); ok {
			s = r
		}
		sb.WriteString(s)
		i = j
	}
	return sb.String()
}

type effect struct {
	key    string
	points []string
	fresh  bool
	whole  bool
}

// effects of calling a contracted function, in terms of the caller's state
func (f *frame) effects(con *Contract, fn *ssa.Function, args []*V, c *cur) (es []effect, allocs bool, panics bool) {
	g := f.g
	byKey := map[string]*effect{}
	get := func(k string) *effect {
		e := byKey[k]
		if e == nil {
			e = &effect{key: k}
			byKey[k] = e
		}
		return e
	}
	if con.HasMod {
		allocs = true
	} else if fn != nil && len(fn.Blocks) > 0 && inRepo(fn) {
		s := g.summarize(fn, con)
		inv := map[string]string{}
		for k, v := range g.initVer {
			inv[v] = k
		}
		sub := func(t string) string {
			return subst(t, func(x string) (string, bool) {
				for i, p := range s.params {
					if p == x {
						return args[i].t, true
					}
				}
				if k, ok := inv[x]; ok {
					return g.get(c.st, k), true
				}
				return "", false
			})
		}
		for k, rs := range s.keys {
			e := get(k)
			for _, r := range rs {
				e.points = append(e.points, sub(r))
			}
			sort.Strings(e.points)
		}
		for k := range s.fresh {
			get(k).fresh = true
		}
		for k := range s.whole {
			get(k).whole = true
		}
		allocs = s.alloc
		panics = s.panics
	}
	if con.HasMod {
		env := f.conEnv(con, args, nil, c.st, c.st)
		for _, m := range con.Mod {
			for _, p := range env.places(m) {
				e := get(p.key)
				switch {
				case p.ref == freshRef:
					e.fresh = true
				case p.ref == "":
					e.whole = true
				default:
					e.points = append(e.points, p.ref)
				}
			}
		}
		panics = con.MayPanic()
	}
	for _, e := range byKey {
		es = append(es, *e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key < es[j].key })
	return
}

func (g *Gen) isRefKey(k string) bool {
	return strings.HasPrefix(k, "H.") || strings.HasPrefix(k, "C.") || strings.HasPrefix(k, "E.") || strings.HasPrefix(k, "MD.") || strings.HasPrefix(k, "MV.") || strings.HasPrefix(k, "ML.")
}

func (f *frame) applyEffects(es []effect, allocs bool, c *cur) {
	g := f.g
	oldAlloc := g.get(c.st, g.allocKey())
	type tv struct {
		t  string
		ty types.Type
	}
	var tvs []tv
	for _, e := range es {
		_ = oldAlloc
		old := g.get(c.st, e.key)
		if !g.isRefKey(e.key) || e.whole {
			c.st[e.key] = g.freshSym("cv."+e.key, g.keySort[e.key])
			g.record(e.key, "")
			if !g.isRefKey(e.key) {
				if ty := g.keyType[e.key]; ty != nil {
					g.assumeType(c.guard, c.st[e.key], ty, c.st)
				}
			}
			continue
		}
		// Cells allocated by the callee (references >= the caller's allocation
		// counter) are unconstrained in the caller's version of the key, so
		// they need no new version.
		if len(e.points) == 0 {
			continue
		}
		t := old
		for _, p := range e.points {
			v := g.freshSym("cv", elemSort(g.keySort[e.key]))
			if strings.HasPrefix(e.key, "E.") {
				// a nil slice has no elements to change
				g.emit("(assert " + imp(eq(p, "0"), eq(v, sel(old, "0"))) + ")")
			}
			t = store(t, p, v)
			g.record(e.key, p)
			if ty := g.keyType[e.key]; ty != nil && strings.HasPrefix(e.key, "H.") {
				tvs = append(tvs, tv{v, ty})
			}
		}
		g.set(c.st, e.key, t)
	}
	if allocs {
		a := g.freshSym("$alloc", "Int")
		g.emit("(assert (>= " + a + " " + oldAlloc + "))")
		c.st[g.allocKey()] = a
		g.record("$alloc", "")
	}
	for _, x := range tvs {
		g.assumeType(c.guard, x.t, x.ty, c.st)
	}
	if allocs {
		// objects the callee allocated hold well-typed values
		na := g.get(c.st, g.allocKey())
		for _, e := range es {
			if e.fresh {
				if fs := g.cellFacts(e.key, g.get(c.st, e.key), oldAlloc, na); fs != "" {
					g.assume(c.guard, fs)
				}
			}
		}
	}
}

func (f *frame) callContract(in ssa.Instruction, con *Contract, fn *ssa.Function, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	if con.Extern {
		g.Assumed["assumed contract on "+con.Key] = true
	} else {
		g.Used[con.Key] = true
	}
	for i := range args {
		args[i] = f.materialize(args[i], c, nil)
		if args[i].addr != nil && args[i].t == "" && fn != nil {
			// interior or local address passed to a contracted function
			return f.inline(in, fn, args, nil, c, resTy)
		}
	}
	env := f.conEnv(con, args, nil, c.st, c.st)
	for _, r := range con.Req {
		t := env.boolExpr(r)
		pos := ""
		if in != nil {
			pos = f.pos(in)
		}
		if g.root != nil && g.root.con != nil && g.root.con.Flags["pre:"+con.Key] {
			g.Assumed["precondition of "+con.Key+" assumed in "+FuncKey(g.root.fn)+": "+r.Text] = true
			g.assume(c.guard, t)
			continue
		}
		g.oblige(&Obl{Name: "requires:" + con.Key + ":" + r.Label, Kind: "requires", Guard: c.guard, Goal: t, Tags: r.Tags, Text: r.Text, Pos: pos})
		g.assume(c.guard, t)
	}
	for i, n := range con.Params {
		tt, ok := con.Dyn[n]
		if !ok || i >= len(args) {
			continue
		}
		t := g.typeByText(tt, con.Where)
		if args[i].dyn != nil && types.Identical(args[i].dyn.ty, t) {
			continue
		}
		if _, isI := types.Unalias(args[i].ty).Underlying().(*types.Interface); isI {
			g.oblige(&Obl{Name: "requires:" + con.Key + ":dyn " + n, Kind: "requires", Guard: c.guard, Goal: eq("(typeof "+args[i].t+")", fmt.Sprint(g.tag(t))), Text: n + " is a " + tt})
		}
	}
	if fn == nil && !con.HasMod && !con.Extern && !con.Flags["pure"] {
		unsup("dynamic call against %s, whose contract states no frame", con.Key)
	}
	old := c.st.clone()
	es, allocs, panics := f.effects(con, fn, args, c)
	f.applyEffects(es, allocs, c)
	if cells := g.cellsFor[con]; len(cells) > 0 {
		if !con.HasMod {
			unsup("contract of closure %s states no frame", con.Key)
		}
		mods := cellMods(con)
		for _, n := range sortedAddr(cells) {
			if mods[n] {
				a := cells[n]
				v := g.freshSym("cell."+n, g.sort(a.ty))
				g.storeAt(c.st, a, v)
				g.assumeType(c.guard, v, a.ty, c.st)
			}
		}
	}
	if con.MayPanic() || (panics && !con.Flags["nopanic"]) {
		pg := g.freshSym("pan", "Bool")
		pst := c.st.clone()
		pguard := g.define("pg", "Bool", and(c.guard, pg))
		pv := g.mkV(g.freshSym("pval", "Any"), types.NewInterfaceType(nil, nil))
		g.emit("(assert (> (typeof " + pv.t + ") 0))")
		penv := f.conEnv(con, args, nil, pst, old)
		penv.vars["panicval"] = pv
		for _, p := range con.Pan {
			g.assume(pguard, penv.boolExpr(p))
		}
		f.panics = append(f.panics, exit{guard: pguard, st: pst, pval: pv, pos: "call " + con.Key})
		c.guard = g.define("ng", "Bool", and(c.guard, not(pg)))
	}
	v := f.havocResults(c, resTy)
	f.assumePost(con, args, v, c, old)
	return v
}

func (f *frame) assumePost(con *Contract, args []*V, v *V, c *cur, old State) {
	env := f.conEnv(con, args, v, c.st, old)
	for _, e := range con.Ens {
		if e.Internal {
			continue
		}
		if e.Trust {
			f.g.Assumed["trusted clause of "+con.Key+": "+e.Text] = true
		}
		f.g.assume(c.guard, env.boolExpr(e))
	}
}

// builtins ------------------------------------------------------------------------

func (f *frame) builtin(in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, c *cur, resTy types.Type) *V {
	g := f.g
	var args []*V
	for _, a := range cc.Args {
		args = append(args, f.val(a, c))
	}
	intT := types.Typ[types.Int]
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		if x.lit {
			return g.mkV(fmt.Sprint(len(x.lits)), intT)
		}
		switch u := types.Unalias(cc.Args[0].Type()).Underlying().(type) {
		case *types.Slice:
			return g.mkV("(s."+b.Name()+" "+x.t+")", intT)
		case *types.Map:
			_, _, l := g.mkeys(cc.Args[0].Type())
			t := g.define("mlen", "Int", ite(eq(x.t, "0"), "0", sel(g.get(c.st, l), x.t)))
			g.assume(c.guard, "(>= "+t+" 0)")
			return g.mkV(t, intT)
		case *types.Array:
			return g.mkV(fmt.Sprint(u.Len()), intT)
		case *types.Basic:
			return g.mkV("(slen "+x.t+")", intT)
		}
	case "append":
		return f.appendB(in, cc, args, c, resTy)
	case "copy":
		return f.copyB(in, cc, args, c, resTy)
	case "delete":
		m, k := args[0], args[1]
		d, _, l := g.mkeys(cc.Args[0].Type())
		od := g.get(c.st, d)
		ol := g.get(c.st, l)
		was := and(not(eq(m.t, "0")), sel(sel(od, m.t), k.t))
		was = g.define("was", "Bool", was)
		g.set(c.st, l, ite(was, store(ol, m.t, "(- "+sel(ol, m.t)+" 1)"), ol))
		g.set(c.st, d, ite(was, store(od, m.t, store(sel(od, m.t), k.t, "false")), od))
		g.record(d, m.t)
		g.record(l, m.t)
		return nil
	case "recover":
		rf := f
		if rf.rec == nil || rf.rec.val == nil {
			return g.mkV("nilAny", resTy)
		}
		*rf.rec.recovered = "true"
		if g.sort(resTy) == "Any" {
			g.assume(c.guard, not(eq(rf.rec.val.t, "nilAny")))
			g.Assumed["a panic that is recovered carries a value (no panic(nil))"] = true
		}
		return g.mkV(rf.rec.val.t, resTy)
	case "min", "max":
		t := args[0].t
		for _, a := range args[1:] {
			op := "<="
			if b.Name() == "max" {
				op = ">="
			}
			t = g.define(b.Name(), "Int", ite("("+op+" "+t+" "+a.t+")", t, a.t))
		}
		return g.mkV(t, resTy)
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		f.nilcheck(args[0], c, in)
		return args[0]
	case "close":
		return nil
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (f *frame) appendB(in ssa.Instruction, cc *ssa.CallCommon, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	st := types.Unalias(resTy).Underlying().(*types.Slice)
	et := st.Elem()
	k := g.ekey(et)
	x := f.materialize(args[0], c, nil)
	y := args[1]
	g.Assumed["append: elements between the old length and capacity of a grown slice are not tracked"] = true
	if y.lit {
		n := len(y.lits)
		nl := fmt.Sprintf("(+ (s.len %s) %d)", x.t, n)
		inpl := g.define("inplace", "Bool", "(<= "+nl+" (s.cap "+x.t+"))")
		fb := g.alloc(c.st)
		base := g.define("ab", "Int", ite(inpl, "(s.base "+x.t+")", fb))
		cp := g.freshSym("cap", "Int")
		g.emit("(assert (and (>= " + cp + " " + nl + ") (=> " + inpl + " (= " + cp + " (s.cap " + x.t + ")))))")
		e := g.get(c.st, k)
		row := sel(e, "(s.base "+x.t+")")
		for i, el := range y.lits {
			idx := "(s.len " + x.t + ")"
			if i > 0 {
				idx = fmt.Sprintf("(+ (s.len %s) %d)", x.t, i)
			}
			if el.lit || el.t == "" {
				unsup("append of literal")
			}
			row = store(row, "(ix (s.off "+x.t+") "+idx+")", el.t)
		}
		g.set(c.st, k, store(e, base, row))
		g.record(k, "(s.base "+x.t+")")
		g.record(k, freshRef)
		return g.mkV(g.define("app", SliceSort, fmt.Sprintf("(mkSlice %s (s.off %s) %s %s)", base, x.t, nl, cp)), resTy)
	}
	// general: append(x, y...)
	var ylen string
	var yat func(i string) string
	if types.Unalias(y.ty).Underlying() == types.Typ[types.String] || g.sort(y.ty) == "Str" {
		ylen = "(slen " + y.t + ")"
		yat = func(i string) string { return "(sat " + y.t + " " + i + ")" }
	} else {
		ylen = "(s.len " + y.t + ")"
		yrow := sel(g.get(c.st, k), "(s.base "+y.t+")")
		yat = func(i string) string { return sel(yrow, "(ix (s.off "+y.t+") "+i+")") }
	}
	nl := g.define("nl", "Int", "(+ (s.len "+x.t+") "+ylen+")")
	inpl := g.define("inplace", "Bool", "(<= "+nl+" (s.cap "+x.t+"))")
	fb := g.alloc(c.st)
	base := g.define("ab", "Int", ite(inpl, "(s.base "+x.t+")", fb))
	cp := g.freshSym("cap", "Int")
	g.emit("(assert (and (>= " + cp + " " + nl + ") (=> " + inpl + " (= " + cp + " (s.cap " + x.t + ")))))")
	e := g.get(c.st, k)
	orow := sel(e, "(s.base "+x.t+")")
	row := g.freshSym("arow", elemSort(g.keySort[k]))
	off := "(s.off " + x.t + ")"
	// prefix kept, suffix from y
	g.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i (s.len %s))) (= (select %s (ix %s i)) (select %s (ix %s i)))) :pattern ((select %s (ix %s i))))))", x.t, row, off, orow, off, row, off))
	g.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= (s.len %s) i) (< i %s)) (= (select %s (ix %s i)) %s)) :pattern ((select %s (ix %s i))))))", x.t, nl, row, off, yat("(- i (s.len "+x.t+"))"), row, off))
	if _, isStr := types.Unalias(y.ty).Underlying().(*types.Slice); isStr {
		// trigger from the source side as well
		g.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s (ix %s (+ i (s.len %s)))) %s)) :pattern (%s))))", ylen, row, off, x.t, yat("i"), yat("i")))
	}
	g.set(c.st, k, ite(eq(ylen, "0"), e, store(e, base, row)))
	g.record(k, "(s.base "+x.t+")")
	g.record(k, freshRef)
	r := g.define("app", SliceSort, fmt.Sprintf("(mkSlice %s %s %s %s)", base, off, nl, cp))
	// append(nil, empty...) is nil
	r = g.define("app", SliceSort, ite(and(eq(ylen, "0")), x.t, r))
	return g.mkV(r, resTy)
}

func (f *frame) copyB(in ssa.Instruction, cc *ssa.CallCommon, args []*V, c *cur, resTy types.Type) *V {
	g := f.g
	d := f.materialize(args[0], c, nil)
	y := f.materialize(args[1], c, nil)
	et := types.Unalias(cc.Args[0].Type()).Underlying().(*types.Slice).Elem()
	k := g.ekey(et)
	var ylen string
	var yat func(i string) string
	if g.sort(y.ty) == "Str" {
		ylen = "(slen " + y.t + ")"
		yat = func(i string) string { return "(sat " + y.t + " " + i + ")" }
	} else {
		ylen = "(s.len " + y.t + ")"
		yrow := sel(g.get(c.st, k), "(s.base "+y.t+")")
		yat = func(i string) string { return sel(yrow, "(ix (s.off "+y.t+") "+i+")") }
	}
	n := g.define("cn", "Int", ite("(<= "+ylen+" (s.len "+d.t+"))", ylen, "(s.len "+d.t+")"))
	e := g.get(c.st, k)
	orow := sel(e, "(s.base "+d.t+")")
	row := g.freshSym("crow", elemSort(g.keySort[k]))
	off := "(s.off " + d.t + ")"
	g.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s (ix %s i)) (ite (and (<= 0 i) (< i %s)) %s (select %s (ix %s i)))) :pattern ((select %s (ix %s i))))))", row, off, n, yat("i"), orow, off, row, off))
	g.set(c.st, k, store(e, "(s.base "+d.t+")", row))
	g.record(k, "(s.base "+d.t+")")
	return g.mkV(n, resTy)
}

func sortedAddr(m map[string]*Addr) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
