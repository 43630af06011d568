package vc

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type exit struct {
	guard string
	st    State
	vals  []*V
	pval  *V // panic value (Any), nil for returns
	pos   string
}

type deferRec struct {
	guard string
	call  *ssa.CallCommon
	vals  []*V
	fnv   *V
}

type frame struct {
	g      *Gen
	fn     *ssa.Function
	vals   map[ssa.Value]*V
	args   []*V
	entry  State
	id     int
	parent *frame
	con    *Contract // contract / invariants for this function (may be nil)
	rets   []exit
	panics []exit
	defers []deferRec
	loops  map[*ssa.BasicBlock]*loop
	order  []*ssa.BasicBlock
	edges  map[*ssa.BasicBlock][]inEdge
	allocs []*localVar // non-escaping locals, for metavariables
	open   []*ssa.BasicBlock
	rec    *recoverCtx
	opened map[*ssa.BasicBlock]*openLoop

	bindings []*V
	rtexit   bool // runtime panics are exits, not obligations
	nodefer  bool
	isDefer  bool
}

type recoverCtx struct {
	val       *V // panic value or nil
	recovered *string
}

type localVar struct {
	key string
	ty  types.Type
	nm  string
}

type inEdge struct {
	pred  *ssa.BasicBlock
	guard string
	st    State
}

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type openLoop struct {
	cands   []*Cand
	evals   []candEval
	entrySt State
	phis    map[*ssa.Phi]*V
	entryPh map[*ssa.Phi]*V
	dry     bool
	guard   string
	headSt  State
	alts    []variantAlt
	loop    *loop
	name    string
}

type variantAlt struct {
	name string
	eval func(ph map[*ssa.Phi]*V, st State) string
}

type candEval struct {
	c    *Cand
	eval func(ph map[*ssa.Phi]*V, st State) string
}

type cur struct {
	guard string
	st    State
	dead  bool
}

func (g *Gen) findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	ls := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ls[s]
				if l == nil {
					l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return ls
}

func topo(fn *ssa.Function, ls map[*ssa.BasicBlock]*loop) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			visit(s)
		}
		out = append(out, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	// check reducibility
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range out {
		idx[b] = i
	}
	for _, b := range out {
		for _, s := range b.Succs {
			if !s.Dominates(b) && idx[s] <= idx[b] {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	return out
}

func (g *Gen) newFrame(fn *ssa.Function, parent *frame) *frame {
	g.frameN++
	f := &frame{g: g, fn: fn, vals: map[ssa.Value]*V{}, id: g.frameN, parent: parent, edges: map[*ssa.BasicBlock][]inEdge{}, opened: map[*ssa.BasicBlock]*openLoop{}}
	f.con = g.C.For(FuncKey(fn))
	if parent != nil {
		f.rtexit = parent.rtexit
	}
	f.loops = g.findLoops(fn)
	f.order = topo(fn, f.loops)
	return f
}

// runFunc translates a function body; returns merged normal exit (nil if none).
func (g *Gen) runFunc(f *frame, args []*V, bind []*V, c *cur) {
	if len(f.fn.Blocks) == 0 {
		unsup("no body: %s", FuncKey(f.fn))
	}
	f.args = args
	f.entry = c.st.clone()
	for i, p := range f.fn.Params {
		f.vals[p] = args[i]
	}
	f.bindings = bind
	for i, p := range f.fn.FreeVars {
		f.vals[p] = bind[i]
	}
	f.edges[f.fn.Blocks[0]] = []inEdge{{nil, c.guard, c.st.clone()}}
	f.runBlocks(f.order, nil)

	if len(f.defers) > 0 && len(f.panics) > 0 {
		// run deferred calls on the panicking path
		ps := f.panics
		f.panics = nil
		m := g.mergeExits(ps)
		cc := &cur{guard: m.guard, st: m.st}
		pv := m.pval
		recovered := "false"
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			rc := &recoverCtx{val: pv, recovered: &recovered}
			f.runDeferred(d, cc, rc)
		}
		if recovered != "false" {
			// recovered: return zero / named results
			rg := g.define("recov", "Bool", and(cc.guard, recovered))
			e := exit{guard: rg, st: cc.st.clone()}
			if f.fn.Recover != nil {
				sub := &cur{guard: rg, st: cc.st.clone()}
				for _, in := range f.fn.Recover.Instrs {
					if r, ok := in.(*ssa.Return); ok {
						for _, x := range r.Results {
							e.vals = append(e.vals, f.val(x, sub))
						}
						break
					}
					f.instr(in, sub)
				}
				e.st = sub.st
			} else {
				res := f.fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					e.vals = append(e.vals, g.mkV(g.zero(res.At(i).Type()), res.At(i).Type()))
				}
			}
			f.rets = append(f.rets, e)
		}
		pg := g.define("stillpanic", "Bool", and(cc.guard, not(recovered)))
		if pg != "false" {
			f.panics = append(f.panics, exit{guard: pg, st: cc.st.clone(), pval: pv, pos: "re-panic"})
		}
	}
}

func (f *frame) runDeferred(d deferRec, c *cur, rc *recoverCtx) {
	g := f.g
	if d.fnv == nil || d.fnv.clo == nil {
		unsup("defer of unknown function")
	}
	clo := d.fnv.clo
	df := g.newFrame(clo.fn, f)
	df.rec = rc
	df.isDefer = true
	g.Inlined[FuncKey(clo.fn)] = true
	g.runFunc(df, d.vals, clo.bind, c)
	f.panics = append(f.panics, df.panics...)
	if len(df.rets) == 0 {
		c.guard = "false"
		c.dead = true
		return
	}
	m := g.mergeExits(df.rets)
	c.guard, c.st = m.guard, m.st
}

func (g *Gen) mergeExits(es []exit) exit {
	if len(es) == 1 {
		return es[0]
	}
	var gs []string
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	out := exit{guard: g.define("ret", "Bool", or(gs...)), pos: es[0].pos}
	var sts []State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	out.st = g.mergeStates(gs, sts)
	n := len(es[0].vals)
	for i := 0; i < n; i++ {
		var vs []*V
		for _, e := range es {
			vs = append(vs, e.vals[i])
		}
		out.vals = append(out.vals, g.mergeVals(gs, vs, out.st))
	}
	if es[0].pval != nil {
		var vs []*V
		for _, e := range es {
			vs = append(vs, e.pval)
		}
		out.pval = g.mergeVals(gs, vs, out.st)
	}
	return out
}

func (g *Gen) mergeStates(gs []string, sts []State) State {
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := State{}
	for _, k := range ks {
		if strings.HasPrefix(k, "L.") || strings.HasPrefix(k, "vis.") || strings.HasPrefix(k, "pos.") {
			// local variable: only meaningful where it has been allocated on all paths
			missing := false
			for _, s := range sts {
				if _, ok := s[k]; !ok {
					missing = true
				}
			}
			if missing {
				// pick from those that have it; other paths: arbitrary
				var first string
				same := true
				for _, s := range sts {
					if v, ok := s[k]; ok {
						if first == "" {
							first = v
						} else if first != v {
							same = false
						}
					}
				}
				if same {
					out[k] = first
					continue
				}
				s := g.freshSym(k, g.keySort[k])
				for i := range sts {
					if v, ok := sts[i][k]; ok {
						g.emit("(assert " + imp(gs[i], eq(s, v)) + ")")
					}
				}
				out[k] = s
				continue
			}
		}
		v0 := g.get(sts[0], k)
		same := true
		for _, s := range sts[1:] {
			if g.get(s, k) != v0 {
				same = false
			}
		}
		if same {
			out[k] = v0
			continue
		}
		s := g.freshSym(k, g.keySort[k])
		for i := range sts {
			g.emit("(assert " + imp(gs[i], eq(s, g.get(sts[i], k))) + ")")
		}
		out[k] = s
	}
	return out
}

func sameAddr(a, b *Addr) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.kind != b.kind || a.key != b.key || a.ref != b.ref || a.idx != b.idx || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i].fi != b.path[i].fi || a.path[i].idx != b.path[i].idx {
			return false
		}
	}
	return true
}

func (g *Gen) mergeVals(gs []string, vs []*V, st State) *V {
	v0 := vs[0]
	same := true
	for _, v := range vs[1:] {
		if v.tup != nil {
			unsup("tuple merge")
		}
		if v.t != v0.t || !sameAddr(v.addr, v0.addr) || v.clo != v0.clo || v.lit || v0.lit {
			same = false
		}
	}
	if same {
		return v0
	}
	var ts []string
	for _, v := range vs {
		if v.addr != nil && v.t == "" {
			unsup("merge of interior addresses")
		}
		if v.lit {
			if len(v.lits) == 0 {
				unsup("merge of slice literal")
			}
			unsup("merge of slice literal")
		}
		ts = append(ts, v.t)
	}
	alle := true
	for _, t := range ts[1:] {
		if t != ts[0] {
			alle = false
		}
	}
	if alle {
		return g.mkV(ts[0], v0.ty)
	}
	s := g.freshSym("m", g.sort(v0.ty))
	for i, t := range ts {
		g.emit("(assert " + imp(gs[i], eq(s, t)) + ")")
	}
	return g.mkV(s, v0.ty)
}

func (f *frame) runBlocks(order []*ssa.BasicBlock, only map[*ssa.BasicBlock]bool) {
	for _, b := range order {
		if only != nil && !only[b] {
			continue
		}
		es := f.edges[b]
		if len(es) == 0 {
			continue
		}
		f.runBlock(b, es)
	}
}

func (f *frame) runBlock(b *ssa.BasicBlock, es []inEdge) {
	g := f.g
	var gs []string
	var sts []State
	for _, e := range es {
		gs = append(gs, e.guard)
		sts = append(sts, e.st)
	}
	c := &cur{guard: g.define(fmt.Sprintf("B%d.%d", f.id, b.Index), "Bool", or(gs...)), st: g.mergeStates(gs, sts)}
	// phis
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entryPh := map[*ssa.Phi]*V{}
	for _, p := range phis {
		var vs []*V
		for _, e := range es {
			vs = append(vs, f.val(phiEdge(p, b, e.pred), &cur{guard: e.guard, st: e.st}))
		}
		for i := range vs {
			vs[i] = f.materialize(vs[i], &cur{guard: gs[i], st: sts[i]}, nil)
		}
		entryPh[p] = g.mergeVals(gs, vs, c.st)
		if entryPh[p].ty == nil {
			entryPh[p] = g.mkV(entryPh[p].t, p.Type())
		}
	}
	if l := f.loops[b]; l != nil && f.opened[b] == nil {
		f.openLoop(l, b, c, phis, entryPh)
		// real processing of the header continues with havocked state
	} else if ol := f.opened[b]; ol != nil && ol.dry {
		for _, p := range phis {
			f.vals[p] = ol.phis[p]
		}
	} else {
		for _, p := range phis {
			f.vals[p] = entryPh[p]
		}
	}
	f.runInstrs(b, len(phis), c)
}

func phiEdge(p *ssa.Phi, b, pred *ssa.BasicBlock) ssa.Value {
	for i, x := range b.Preds {
		if x == pred {
			return p.Edges[i]
		}
	}
	panic("phi edge")
}

func (f *frame) runInstrs(b *ssa.BasicBlock, from int, c *cur) {
	g := f.g
	for _, in := range b.Instrs[from:] {
		if c.dead {
			return
		}
		switch in := in.(type) {
		case *ssa.If:
			cond := f.val(in.Cond, c).t
			f.edge(b, b.Succs[0], g.define("e", "Bool", and(c.guard, cond)), c.st)
			f.edge(b, b.Succs[1], g.define("e", "Bool", and(c.guard, not(cond))), c.st)
			return
		case *ssa.Jump:
			f.edge(b, b.Succs[0], c.guard, c.st)
			return
		case *ssa.Return:
			e := exit{guard: c.guard, st: c.st, pos: f.pos(in)}
			for _, r := range in.Results {
				e.vals = append(e.vals, f.materialize(f.val(r, c), c, nil))
			}
			f.rets = append(f.rets, e)
			return
		case *ssa.Panic:
			f.panics = append(f.panics, exit{guard: c.guard, st: c.st, pval: f.val(in.X, c), pos: f.pos(in)})
			return
		default:
			f.instr(in, c)
		}
	}
}

func (f *frame) edge(from, to *ssa.BasicBlock, guard string, st State) {
	if guard == "false" {
		return
	}
	if to.Dominates(from) {
		ol := f.opened[to]
		if ol == nil {
			unsup("back edge to unopened loop")
		}
		if ol.dry {
			return
		}
		// invariant preservation
		g := f.g
		ph := map[*ssa.Phi]*V{}
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ph[p] = f.materialize(f.val(phiEdge(p, to, from), &cur{guard: guard, st: st}), &cur{guard: guard, st: st}, nil)
		}
		for _, ce := range ol.evals {
			t, ok := safeEval(ce, ph, st)
			if !ok {
				t = "false"
			}
			o := &Obl{Name: "inv-pres:" + ce.c.Fn + ":" + ce.c.Loop + ":" + ce.c.Text, Kind: "inv", Guard: guard, Goal: t, Cand: ce.c, Text: ce.c.Text}
			ce.c.obls = append(ce.c.obls, o)
			g.oblige(o)
		}
		f.variant(to, ol, guard, ph, st)
		return
	}
	f.edges[to] = append(f.edges[to], inEdge{from, guard, st.clone()})
}

func safeEval(ce candEval, ph map[*ssa.Phi]*V, st State) (t string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return ce.eval(ph, st), true
}

func (f *frame) openLoop(l *loop, b *ssa.BasicBlock, c *cur, phis []*ssa.Phi, entryPh map[*ssa.Phi]*V) {
	g := f.g
	c.guard = g.define("entry", "Bool", c.guard)
	// make allocation counter and known keys explicit so that "entry" versions exist
	startN := g.n
	entrySt := c.st.clone()
	mod := map[string]bool{}
	refs := map[string]map[string]bool{}

	mkHavoc := func(points map[string][]string) (State, map[*ssa.Phi]*V) {
		st := entrySt.clone()
		var ks []string
		for k := range mod {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if strings.HasPrefix(k, "L.") || strings.HasPrefix(k, "vis.") || strings.HasPrefix(k, "pos.") {
				if _, ok := entrySt[k]; !ok {
					continue
				}
			}
			if pts, ok := points[k]; ok {
				t := g.get(entrySt, k)
				for _, r := range pts {
					inner := elemSort(g.keySort[k])
					v := g.freshSym("hv."+k, inner)
					t = store(t, r, v)
					if ty := g.keyType[k]; ty != nil && !strings.HasPrefix(k, "E.") && !strings.HasPrefix(k, "M") {
						_ = ty
					}
				}
				g.set(st, k, t)
			} else {
				st[k] = g.freshSym("hv."+k, g.keySort[k])
			}
		}
		ph := map[*ssa.Phi]*V{}
		for _, p := range phis {
			e := entryPh[p]
			if e.clo != nil || e.addr != nil {
				unsup("loop-carried address or closure")
			}
			ph[p] = g.mkV(g.freshSym("phi."+p.Comment, g.sort(p.Type())), p.Type())
		}
		return st, ph
	}

	for iter := 0; ; iter++ {
		if iter > 8 {
			unsup("loop frame did not stabilise")
		}
		nItems := len(g.items)
		nObls := len(g.Obls)
		nR, nP, nD := len(f.rets), len(f.panics), len(f.defers)
		nA := len(f.allocs)
		savedEdges := f.edges
		f.edges = map[*ssa.BasicBlock][]inEdge{}
		g.dry++
		rec := &recorder{}
		g.recs = append(g.recs, rec)
		st, ph := mkHavoc(nil)
		ol := &openLoop{dry: true, phis: ph}
		f.opened[b] = ol
		f.edges[b] = []inEdge{{nil, c.guard, st}}
		// run header then body
		func() {
			defer func() {
				g.recs = g.recs[:len(g.recs)-1]
				g.dry--
				f.edges = savedEdges
				for x := range l.body {
					delete(f.opened, x)
				}
				delete(f.opened, b)
			}()
			cc := &cur{guard: c.guard, st: st}
			for _, p := range phis {
				f.vals[p] = ph[p]
			}
			f.assumeHeader(phis, cc)
			f.runInstrs(b, len(phis), cc)
			for _, x := range f.order {
				if x != b && l.body[x] {
					if es := f.edges[x]; len(es) > 0 {
						f.runBlock(x, es)
					}
				}
			}
		}()
		f.rets = f.rets[:nR]
		f.panics = f.panics[:nP]
		f.defers = f.defers[:nD]
		f.allocs = f.allocs[:nA]
		g.items = g.items[:nItems]
		g.Obls = g.Obls[:nObls]
		grew := false
		refs = map[string]map[string]bool{}
		for _, w := range rec.writes {
			if strings.HasPrefix(w.key, "L.") || strings.HasPrefix(w.key, "vis.") || strings.HasPrefix(w.key, "pos.") {
				if _, ok := entrySt[w.key]; !ok {
					continue
				}
			}
			if !mod[w.key] {
				mod[w.key] = true
				grew = true
			}
			if refs[w.key] == nil {
				refs[w.key] = map[string]bool{}
			}
			refs[w.key][w.ref] = true
		}
		if !grew {
			break
		}
	}
	points := map[string][]string{}
	for k, rs := range refs {
		if !strings.HasPrefix(k, "H.") && !strings.HasPrefix(k, "C.") && !strings.HasPrefix(k, "E.") && !strings.HasPrefix(k, "MD.") && !strings.HasPrefix(k, "MV.") && !strings.HasPrefix(k, "ML.") {
			continue
		}
		ok := true
		var ex []string
		seen := map[string]bool{}
		for r := range rs {
			if r == "" || r == freshRef {
				ok = false
				break
			}
			e, good := g.expandOld(r, startN)
			if !good {
				ok = false
				break
			}
			if !seen[e] {
				seen[e] = true
				ex = append(ex, e)
			}
		}
		if ok {
			sort.Strings(ex)
			points[k] = ex
		}
	}
	st, ph := mkHavoc(points)
	for k := range mod { // enclosing loops must see these as written
		if pts, ok := points[k]; ok {
			for _, r := range pts {
				g.record(k, r)
			}
		} else {
			g.record(k, "")
		}
	}
	c.st = st
	for _, p := range phis {
		f.vals[p] = ph[p]
	}
	f.open = append(f.open, b)
	ol := &openLoop{entrySt: entrySt, phis: ph, entryPh: entryPh, guard: c.guard, headSt: st.clone(), loop: l}
	f.opened[b] = ol
	f.assumeHeader(phis, c)
	for _, k := range keysOf(c.st) {
		if ty := g.keyType[k]; ty != nil && strings.HasPrefix(k, "H.") {
			for _, r := range points[k] {
				g.assumeType(c.guard, sel(c.st[k], r), ty, c.st)
			}
		}
	}
	if g.dry > 0 {
		// inside an outer dry run the candidates are irrelevant
		ol.dry = true
		return
	}
	f.makeCands(l, b, ol, phis, mod, points, c)
	for i := range ol.evals {
		ce := ol.evals[i]
		t, ok := safeEval(ce, entryPh, entrySt)
		if !ok {
			t = "false"
		}
		o := &Obl{Name: "inv-entry:" + ce.c.Fn + ":" + ce.c.Loop + ":" + ce.c.Text, Kind: "inv", Guard: c.guard, Goal: t, Cand: ce.c, Text: ce.c.Text}
		ce.c.obls = append(ce.c.obls, o)
		g.oblige(o)
	}
	hg := g.freshSym("loop", "Bool")
	g.emit("(assert " + imp(hg, c.guard) + ")")
	c.guard = hg
	for i := range ol.evals {
		ce := ol.evals[i]
		t, ok := safeEval(ce, ph, st)
		if !ok {
			continue
		}
		g.emit("(assert " + imp(and(hg, ce.c.Flag), t) + ")")
	}
}

func elemSort(s string) string {
	// "(Array Int X)" -> X
	if !strings.HasPrefix(s, "(Array ") {
		panic("elemSort " + s)
	}
	inner := s[len("(Array ") : len(s)-1]
	// skip first sort
	d := 0
	for i := 0; i < len(inner); i++ {
		switch inner[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return inner[i+1:]
			}
		}
	}
	panic("elemSort " + s)
}

// assumeHeader assumes type facts for havocked values.
func (f *frame) assumeHeader(phis []*ssa.Phi, c *cur) {
	g := f.g
	for _, p := range phis {
		g.assumeType(c.guard, f.vals[p].t, p.Type(), c.st)
	}
	for _, lv := range f.allocs {
		if t, ok := c.st[lv.key]; ok {
			g.assumeType(c.guard, t, lv.ty, c.st)
		}
	}
	a := g.get(c.st, g.allocKey())
	g.assume(c.guard, "(>= "+a+" 1)")
}

func (f *frame) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return f.fn.Name()
	}
	ps := f.fn.Prog.Fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func (f *frame) val(v ssa.Value, c *cur) *V {
	g := f.g
	if x, ok := f.vals[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return g.constV(v)
	case *ssa.Function:
		return &V{t: g.fnId(v), ty: v.Type(), clo: &closure{fn: v}}
	case *ssa.Global:
		et := v.Type().Underlying().(*types.Pointer).Elem()
		k := g.key("G."+short(v.Pkg.Pkg.Path())+"."+v.Name(), g.sort(et), et)
		return &V{t: "", ty: v.Type(), addr: &Addr{kind: "var", key: k, root: et, ty: et}}
	case *ssa.Builtin:
		return &V{t: "0", ty: v.Type()}
	}
	unsup("value %s (%T) in %s", v.Name(), v, f.fn)
	return nil
}

func (g *Gen) fnId(fn *ssa.Function) string {
	n, ok := g.fnIds[fn]
	if !ok {
		n = len(g.fnIds) + 1
		g.fnIds[fn] = n
	}
	return fmt.Sprint(n)
}

func (g *Gen) constV(v *ssa.Const) *V {
	t := v.Type()
	if v.Value == nil {
		return g.mkV(g.zero(t), t)
	}
	switch v.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(v.Value) {
			return g.mkV("true", t)
		}
		return g.mkV("false", t)
	case constant.String:
		return g.mkV(g.strLit(constant.StringVal(v.Value)), t)
	case constant.Int:
		return g.mkV(intLit(v.Value.ExactString()), t)
	case constant.Float:
		return g.mkV("0.0", t)
	}
	unsup("const %s", v)
	return nil
}

func intLit(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

// materialize turns a slice literal into a heap slice.
func (f *frame) materialize(v *V, c *cur, _ *int) *V {
	g := f.g
	if v == nil || !v.lit {
		return v
	}
	et := v.ty.Underlying().(*types.Slice).Elem()
	k := g.ekey(et)
	b := g.alloc(c.st)
	e := g.get(c.st, k)
	row := sel(e, b)
	for i, x := range v.lits {
		row = store(row, fmt.Sprintf("(ix 0 %d)", i), x.t)
	}
	g.set(c.st, k, store(e, b, row))
	g.record(k, "")
	n := len(v.lits)
	v.t = fmt.Sprintf("(mkSlice %s 0 %d %d)", b, n, n)
	v.lit = false
	return v
}

func (f *frame) addrOf(v *V, c *cur) *Addr {
	g := f.g
	if v.addr != nil {
		return v.addr
	}
	pt, ok := types.Unalias(v.ty).Underlying().(*types.Pointer)
	if !ok {
		unsup("address of non-pointer %s", TS(v.ty))
	}
	et := types.Unalias(pt.Elem())
	if _, ok := et.Underlying().(*types.Struct); ok {
		return &Addr{kind: "obj", ref: v.t, root: et, ty: et}
	}
	return &Addr{kind: "heap", key: g.ckey(et), ref: v.t, root: et, ty: et}
}

// nilcheck obliges that a pointer used for access is non-nil.
func (f *frame) nilcheck(v *V, c *cur, in ssa.Instruction) {
	if v.addr != nil || v.t == "" {
		return
	}
	f.safety(c, "(not (= "+v.t+" 0))", "nil dereference", in)
}

func (f *frame) safety(c *cur, cond, what string, in ssa.Instruction) {
	g := f.g
	if cond == "true" {
		return
	}
	if g.root != nil && g.root.con != nil && g.root.con.Flags["partial"] {
		g.Assumed["run-time errors are not excluded in "+FuncKey(g.root.fn)+": its postconditions are claimed for calls that return"] = true
		g.assume(c.guard, cond)
		return
	}
	if f.rtexit {
		pg := g.define("rt", "Bool", and(c.guard, not(cond)))
		pv := g.mkV(g.freshSym("rtpanic", "Any"), types.NewInterfaceType(nil, nil))
		g.emit("(assert (> (typeof " + pv.t + ") 0))")
		f.panics = append(f.panics, exit{guard: pg, st: c.st.clone(), pval: pv, pos: f.pos(in)})
		c.guard = g.define("ok", "Bool", and(c.guard, cond))
		return
	}
	g.oblige(&Obl{Name: "safety:" + what + ":" + FuncKey(f.fn), Kind: "safety", Guard: c.guard, Goal: cond, Pos: f.pos(in), Text: what})
	g.assume(c.guard, cond)
}

func (f *frame) escaping(a *ssa.Alloc) bool {
	return escapes(a, map[ssa.Value]bool{})
}

func escapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == v {
				return true
			}
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return true
			}
		case *ssa.FieldAddr:
			if escapes(r, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if r.X != v {
				return true
			}
			if escapes(r, seen) {
				return true
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			if closureEscapes(r) {
				return true
			}
			for i, b := range r.Bindings {
				if b == v {
					if escapes(fn.FreeVars[i], seen) {
						return true
					}
				}
			}
		case *ssa.Slice:
			a, ok := v.(*ssa.Alloc)
			if !ok || !(a.Comment == "varargs" || a.Comment == "slicelit" || a.Comment == "makeslice") {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func closureEscapes(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.Call:
			if r.Call.Value != m {
				return true
			}
			for _, a := range r.Call.Args {
				if a == m {
					return true
				}
			}
		case *ssa.Defer:
			if r.Call.Value != m {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func (f *frame) instr(in ssa.Instruction, c *cur) {
	g := f.g
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := types.Unalias(in.Type().Underlying().(*types.Pointer).Elem())
		if !f.escaping(in) {
			k := g.key(fmt.Sprintf("L.%d.%s.%s", f.id, in.Name(), in.Comment), g.sort(et), et)
			found := false
			for _, lv := range f.allocs {
				if lv.key == k {
					found = true
				}
			}
			if !found {
				f.allocs = append(f.allocs, &localVar{k, et, in.Comment})
			}
			c.st[k] = g.zero(et)
			if strings.HasPrefix(g.zero(et), "(") {
				c.st[k] = g.define("z", g.sort(et), g.zero(et))
			}
			g.record(k, "")
			f.vals[in] = &V{ty: in.Type(), addr: &Addr{kind: "var", key: k, root: et, ty: et}}
			return
		}
		r := g.alloc(c.st)
		v := g.mkV(r, in.Type())
		f.vals[in] = v
		g.news[TS(in.Type())] = append(g.news[TS(in.Type())], v)
		a := f.addrOf(v, c)
		if a.kind == "obj" {
			si := g.sinfo(et)
			for i := range si.fields {
				k := g.hkey(et, i)
				g.set(c.st, k, store(g.get(c.st, k), r, g.zero(si.fty[i])))
				g.record(k, r)
			}
		} else {
			g.rootWrite(c.st, a, g.zero(et))
		}
	case *ssa.FieldAddr:
		x := f.val(in.X, c)
		f.nilcheck(x, c, in)
		st := types.Unalias(in.X.Type().Underlying().(*types.Pointer).Elem())
		f.vals[in] = &V{ty: in.Type(), addr: g.fieldAddr(f.addrOf(x, c), st, in.Field)}
	case *ssa.Field:
		x := f.val(in.X, c)
		f.vals[in] = g.mkV(g.define(in.Name(), g.sort(in.Type()), app(g.sinfo(in.X.Type()).fields[in.Field], x.t)), in.Type())
	case *ssa.IndexAddr:
		x := f.val(in.X, c)
		i := f.val(in.Index, c)
		if pt, ok := types.Unalias(in.X.Type()).Underlying().(*types.Pointer); ok {
			at := types.Unalias(pt.Elem()).Underlying().(*types.Array)
			f.nilcheck(x, c, in)
			f.safety(c, inRange(i.t, fmt.Sprint(at.Len())), "array index", in)
			a := *f.addrOf(x, c)
			a.path = append(append([]pathEl{}, a.path...), pathEl{st: pt.Elem(), idx: i.t})
			a.ty = at.Elem()
			f.vals[in] = &V{ty: in.Type(), addr: &a}
			return
		}
		x = f.materialize(x, c, nil)
		f.safety(c, inRange(i.t, "(s.len "+x.t+")"), "index out of range", in)
		et := types.Unalias(in.X.Type().Underlying().(*types.Slice).Elem())
		f.vals[in] = &V{ty: in.Type(), addr: &Addr{kind: "elem", key: g.ekey(et), ref: "(s.base " + x.t + ")", idx: "(ix (s.off " + x.t + ") " + i.t + ")", root: et, ty: et}}
	case *ssa.Index:
		x := f.val(in.X, c)
		i := f.val(in.Index, c)
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Array:
			f.safety(c, inRange(i.t, fmt.Sprint(u.Len())), "array index", in)
			f.vals[in] = g.mkV(g.define(in.Name(), g.sort(in.Type()), sel(x.t, i.t)), in.Type())
		default: // string
			f.safety(c, inRange(i.t, "(slen "+x.t+")"), "string index", in)
			f.vals[in] = g.mkV(g.define(in.Name(), "Int", app("sat", x.t, i.t)), in.Type())
		}
	case *ssa.UnOp:
		f.unop(in, c)
	case *ssa.Store:
		a := f.val(in.Addr, c)
		v := f.materialize(f.val(in.Val, c), c, nil)
		f.nilcheck(a, c, in)
		if v.addr != nil && v.t == "" {
			// storing an interior/local address
			if ad := f.addrOf(a, c); ad.kind == "var" && len(ad.path) == 0 {
				unsup("store of interior address in %s", f.fn)
			}
			unsup("store of interior address in %s", f.fn)
		}
		g.storeAt(c.st, f.addrOf(a, c), v.t)
		if v.clo != nil {
			if ad := f.addrOf(a, c); ad.kind == "var" && len(ad.path) == 0 {
				f.cloMemo(ad.key, v)
			}
		}
	case *ssa.BinOp:
		f.vals[in] = f.binop(in, c)
	case *ssa.Convert:
		f.vals[in] = f.convert(in, c)
	case *ssa.ChangeType:
		x := *f.val(in.X, c)
		x.ty = in.Type()
		if types.Identical(in.X.Type().Underlying(), in.Type().Underlying()) && g.hasStructSort(in.Type()) && TS(in.X.Type()) != TS(in.Type()) {
			f.vals[in] = g.convStruct(&x, in.X.Type(), in.Type())
			return
		}
		f.vals[in] = &x
	case *ssa.ChangeInterface:
		x := *f.val(in.X, c)
		x.ty = in.Type()
		f.vals[in] = &x
	case *ssa.MakeInterface:
		x := f.materialize(f.val(in.X, c), c, nil)
		if x.addr != nil && x.t == "" {
			unsup("interface of interior address")
		}
		box, _ := g.boxes(in.X.Type())
		f.vals[in] = &V{t: g.define(in.Name(), "Any", app(box, x.t)), ty: in.Type(), dyn: &V{t: x.t, ty: in.X.Type(), clo: x.clo}}
	case *ssa.TypeAssert:
		f.typeAssert(in, c)
	case *ssa.Extract:
		t := f.val(in.Tuple, c)
		if t.tup == nil {
			unsup("extract of non-tuple")
		}
		f.vals[in] = t.tup[in.Index]
	case *ssa.Slice:
		f.slice(in, c)
	case *ssa.MakeSlice:
		ln := f.val(in.Len, c)
		cp := f.val(in.Cap, c)
		f.safety(c, and("(<= 0 "+ln.t+")", "(<= "+ln.t+" "+cp.t+")"), "makeslice length", in)
		et := in.Type().Underlying().(*types.Slice).Elem()
		k := g.ekey(et)
		b := g.alloc(c.st)
		g.set(c.st, k, store(g.get(c.st, k), b, g.constRow("(Array Int "+g.sort(et)+")", g.zero(et))))
		g.record(k, "")
		f.vals[in] = g.mkV(g.define(in.Name(), SliceSort, "(mkSlice "+b+" 0 "+ln.t+" "+cp.t+")"), in.Type())
	case *ssa.MakeMap:
		r := g.alloc(c.st)
		d, _, l := g.mkeys(in.Type())
		m := in.Type().Underlying().(*types.Map)
		g.set(c.st, d, store(g.get(c.st, d), r, "((as const (Array "+g.sort(m.Key())+" Bool)) false)"))
		g.set(c.st, l, store(g.get(c.st, l), r, "0"))
		g.record(d, r)
		g.record(l, r)
		f.vals[in] = g.mkV(r, in.Type())
	case *ssa.MapUpdate:
		m := f.val(in.Map, c)
		k := f.val(in.Key, c)
		v := f.materialize(f.val(in.Value, c), c, nil)
		f.safety(c, "(not (= "+m.t+" 0))", "write to nil map", in)
		d, vv, l := g.mkeys(in.Map.Type())
		od := g.get(c.st, d)
		was := sel(sel(od, m.t), k.t)
		ol := g.get(c.st, l)
		nl := ite(was, sel(ol, m.t), "(+ "+sel(ol, m.t)+" 1)")
		g.set(c.st, l, store(ol, m.t, nl))
		g.set(c.st, d, store(od, m.t, store(sel(od, m.t), k.t, "true")))
		ov := g.get(c.st, vv)
		g.set(c.st, vv, store(ov, m.t, store(sel(ov, m.t), k.t, v.t)))
		g.record(d, m.t)
		g.record(vv, m.t)
		g.record(l, m.t)
	case *ssa.Lookup:
		f.lookup(in, c)
	case *ssa.Range:
		x := f.val(in.X, c)
		if mt, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map); ok {
			k := g.key(fmt.Sprintf("vis.%d.%s", f.id, in.Name()), "(Array "+g.sort(mt.Key())+" Bool)", nil)
			c.st[k] = g.define("vis0", g.keySort[k], "((as const "+g.keySort[k]+") false)")
			g.record(k, "")
			f.vals[in] = &V{t: "0", ty: in.Type(), iter: &mapIter{key: k, m: x, mt: mt}}
		} else {
			k := g.key(fmt.Sprintf("pos.%d.%s", f.id, in.Name()), "Int", nil)
			c.st[k] = "0"
			g.record(k, "")
			f.vals[in] = &V{t: "0", ty: in.Type(), iter: &mapIter{posKey: k, m: x, isStr: true}}
		}
	case *ssa.Next:
		f.next(in, c)
	case *ssa.MakeClosure:
		var bs []*V
		for _, b := range in.Bindings {
			bs = append(bs, f.val(b, c))
		}
		f.vals[in] = &V{t: g.freshSym("clo", "Int"), ty: in.Type(), clo: &closure{fn: in.Fn.(*ssa.Function), bind: bs}}
	case *ssa.Call:
		v := f.call(in, &in.Call, c)
		f.vals[in] = v
	case *ssa.Defer:
		if in.Block().Index != 0 {
			unsup("conditional defer in %s", f.fn)
		}
		d := deferRec{guard: c.guard, call: &in.Call}
		d.fnv = f.val(in.Call.Value, c)
		for _, a := range in.Call.Args {
			d.vals = append(d.vals, f.val(a, c))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			f.runDeferred(f.defers[i], c, &recoverCtx{})
			if c.dead {
				return
			}
		}
	case *ssa.Phi:
		unsup("phi out of place")
	default:
		unsup("instruction %T in %s", in, f.fn)
	}
}

func (f *frame) cloMemo(key string, v *V) {}

func inRange(i, n string) string { return "(and (<= 0 " + i + ") (< " + i + " " + n + "))" }

func (g *Gen) fieldAddr(a *Addr, st types.Type, i int) *Addr {
	ft := types.Unalias(st).Underlying().(*types.Struct).Field(i).Type()
	if a.kind == "obj" && len(a.path) == 0 {
		return &Addr{kind: "heap", key: g.hkey(a.root, i), ref: a.ref, root: ft, ty: ft}
	}
	n := *a
	n.path = append(append([]pathEl{}, a.path...), pathEl{st: st, fi: i})
	n.ty = ft
	return &n
}

func (g *Gen) hasStructSort(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

func (g *Gen) convStruct(v *V, from, to types.Type) *V {
	a, b := g.sinfo(from), g.sinfo(to)
	if len(b.fields) == 0 {
		return g.mkV(b.mk, to)
	}
	var xs []string
	for i, fl := range a.fields {
		x := app(fl, v.t)
		if g.hasStructSort(a.fty[i]) && TS(a.fty[i]) != TS(b.fty[i]) {
			x = g.convStruct(g.mkV(x, a.fty[i]), a.fty[i], b.fty[i]).t
		}
		xs = append(xs, x)
	}
	return g.mkV(app(b.mk, xs...), to)
}

func (f *frame) unop(in *ssa.UnOp, c *cur) {
	g := f.g
	x := f.val(in.X, c)
	switch in.Op {
	case token.MUL:
		f.nilcheck(x, c, in)
		a := f.addrOf(x, c)
		t := g.define(in.Name(), g.sort(in.Type()), g.load(c.st, a))
		v := g.mkV(t, in.Type())
		g.assumeType(c.guard, t, in.Type(), c.st)
		if a.kind == "var" && strings.HasPrefix(a.key, "G.") {
			f.globalFacts(in, v, c)
		}
		f.vals[in] = v
	case token.NOT:
		f.vals[in] = g.mkV(not(x.t), in.Type())
	case token.SUB:
		f.vals[in] = g.mkV(g.define(in.Name(), "Int", wrap(in.Type(), "(- "+x.t+")")), in.Type())
	case token.XOR:
		if _, hi, _, signed, ok := intRange(in.Type()); ok && !signed {
			f.vals[in] = g.mkV("(- "+hi+" "+x.t+")", in.Type())
		} else {
			f.vals[in] = g.mkV("(- (- "+x.t+") 1)", in.Type())
		}
	default:
		unsup("unop %s", in.Op)
	}
}

// globalFacts: facts about package-level variables that are only assigned in
// initialisers and hold freshly allocated objects or non-nil maps.
func (f *frame) globalFacts(in *ssa.UnOp, v *V, c *cur) {
	g := f.g
	gl, ok := in.X.(*ssa.Global)
	if ok && gl.Pkg != nil && !strings.HasPrefix(gl.Pkg.Pkg.Path(), RepoModule) {
		switch types.Unalias(v.ty).Underlying().(type) {
		case *types.Pointer, *types.Map:
			g.Assumed["package-level variable "+gl.String()+" of a dependency is not nil"] = true
			g.assume(c.guard, "(not (= "+v.t+" 0))")
		case *types.Interface:
			g.Assumed["package-level variable "+gl.String()+" of a dependency is not nil"] = true
			g.assume(c.guard, "(not (= (typeof "+v.t+") 0))")
		}
		return
	}
	if !ok || !g.P.initOnly[gl] {
		return
	}
	g.Assumed["package-level variable "+gl.Name()+" keeps the value its initialiser gave it (no assignment outside init in the SSA of the package)"] = true
	switch types.Unalias(v.ty).Underlying().(type) {
	case *types.Pointer, *types.Map:
		if g.P.initNonNil(gl) {
			g.assume(c.guard, "(not (= "+v.t+" 0))")
		}
	}
}

// initNonNil: the package initialiser stores an allocation into the global.
func (p *Program) initNonNil(gl *ssa.Global) bool {
	init := gl.Pkg.Func("init")
	if init == nil {
		return false
	}
	n, good := 0, true
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == gl {
				n++
				switch x := st.Val.(type) {
				case *ssa.Alloc, *ssa.MakeMap:
				case *ssa.Call:
					if fn := x.Call.StaticCallee(); fn == nil || !alwaysFresh(fn) {
						good = false
					}
				default:
					good = false
				}
			}
		}
	}
	return n > 0 && good
}

func alwaysFresh(fn *ssa.Function) bool {
	ok := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, is := in.(*ssa.Return); is {
				if len(r.Results) != 1 {
					return false
				}
				switch r.Results[0].(type) {
				case *ssa.Alloc, *ssa.MakeMap:
					ok = true
				default:
					return false
				}
			}
		}
	}
	return ok
}

func (f *frame) binop(in *ssa.BinOp, c *cur) *V {
	g := f.g
	x, y := f.val(in.X, c), f.val(in.Y, c)
	t := in.Type()
	srt := g.sort(in.X.Type())
	mk := func(s string) *V { return g.mkV(g.define(in.Name(), g.sort(t), s), t) }
	switch in.Op {
	case token.EQL, token.NEQ:
		var e string
		switch {
		case srt == SliceSort:
			// comparison with nil only
			z := x
			if cst, ok := in.X.(*ssa.Const); ok && cst.Value == nil {
				z = y
			}
			if z.lit {
				e = "false"
			} else {
				e = "(= (s.base " + z.t + ") 0)"
			}
		case srt == "Any":
			e = g.anyEq(x, y, in)
		case x.addr != nil || y.addr != nil:
			if (x.addr != nil && y.t == "0") || (y.addr != nil && x.t == "0") {
				e = "false"
			} else {
				unsup("comparison of interior addresses")
			}
		default:
			e = eq(x.t, y.t)
		}
		if in.Op == token.NEQ {
			e = not(e)
		}
		return mk(e)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if srt == "Str" {
			switch in.Op {
			case token.LSS:
				return mk(app("slt", x.t, y.t))
			case token.GTR:
				return mk(app("slt", y.t, x.t))
			case token.LEQ:
				return mk(not(app("slt", y.t, x.t)))
			default:
				return mk(not(app("slt", x.t, y.t)))
			}
		}
		op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[in.Op]
		return mk(app(op, x.t, y.t))
	case token.ADD:
		if srt == "Str" {
			return mk(g.catTerms(x.t, y.t))
		}
		return mk(wrap(t, app("+", x.t, y.t)))
	case token.SUB:
		return mk(wrap(t, app("-", x.t, y.t)))
	case token.MUL:
		return mk(wrap(t, app("*", x.t, y.t)))
	case token.QUO:
		f.safety(c, "(not (= "+y.t+" 0))", "division by zero", in)
		// Go truncates toward zero
		return mk(wrap(t, fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", x.t, x.t, y.t, x.t, y.t)))
	case token.REM:
		f.safety(c, "(not (= "+y.t+" 0))", "division by zero", in)
		return mk(fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", x.t, x.t, y.t, x.t, y.t))
	case token.AND:
		if srt == "Bool" {
			return mk(and(x.t, y.t))
		}
		return mk(app("$band", x.t, y.t))
	case token.OR:
		if srt == "Bool" {
			return mk(or(x.t, y.t))
		}
		return mk(wrap(t, app("$bor", x.t, y.t)))
	case token.XOR:
		return mk(wrap(t, app("$bxor", x.t, y.t)))
	case token.AND_NOT:
		return mk(app("$bandnot", x.t, y.t))
	case token.SHL:
		return mk(wrap(t, app("$shl", x.t, y.t)))
	case token.SHR:
		return mk(app("$shr", x.t, y.t))
	}
	unsup("binop %s", in.Op)
	return nil
}

func (g *Gen) anyEq(x, y *V, in *ssa.BinOp) string {
	// operands may be an interface and a concrete value
	isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }
	if isNil(in.Y) {
		if x.dyn != nil {
			return "false"
		}
		return "(= (typeof " + x.t + ") 0)"
	}
	if isNil(in.X) {
		if y.dyn != nil {
			return "false"
		}
		return "(= (typeof " + y.t + ") 0)"
	}
	return eq(x.t, y.t)
}

func (f *frame) convert(in *ssa.Convert, c *cur) *V {
	g := f.g
	x := f.val(in.X, c)
	from, to := types.Unalias(in.X.Type()).Underlying(), types.Unalias(in.Type()).Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		// widening needs no wrap
		_, _, fbits, fs, f1 := intRange(in.X.Type())
		_, _, tbits, ts, t1 := intRange(in.Type())
		if !t1 { // to int/int64
			if f1 && (fbits < 64) || !f1 {
				return g.mkV(x.t, in.Type())
			}
			// uint64 -> int64 wraps
			return g.mkV(g.define(in.Name(), "Int", fmt.Sprintf("(ite (< %s 9223372036854775808) %s (- %s 18446744073709551616))", x.t, x.t, x.t)), in.Type())
		}
		if f1 && fs == ts && fbits <= tbits {
			return g.mkV(x.t, in.Type())
		}
		if f1 && !fs && ts && fbits < tbits {
			return g.mkV(x.t, in.Type())
		}
		return g.mkV(g.define(in.Name(), "Int", wrap(in.Type(), x.t)), in.Type())
	}
	if st, ok := from.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		x = f.materialize(x, c, nil)
		_ = st
		if g.sort(st.Elem()) == "Int" {
			row := sel(g.get(c.st, g.ekey(st.Elem())), "(s.base "+x.t+")")
			return g.mkV(g.define(in.Name(), "Str", app("b2s", row, "(s.off "+x.t+")", "(s.len "+x.t+")")), in.Type())
		}
	}
	if st, ok := to.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		// []byte(s)
		if eb, ok := st.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			k := g.ekey(st.Elem())
			b := g.alloc(c.st)
			fn := g.uf("s2b", []string{"Str"}, "(Array Int Int)")
			row := app(fn, x.t)
			g.set(c.st, k, store(g.get(c.st, k), b, row))
			g.record(k, "")
			g.emit(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s (ix 0 i)) (sat %s i)) :pattern ((select %s (ix 0 i))))))", row, x.t, row))
			n := "(slen " + x.t + ")"
			g.emit(fmt.Sprintf("(assert (= (b2s %s 0 %s) %s))", row, n, x.t))
			return g.mkV(g.define(in.Name(), SliceSort, "(mkSlice "+b+" 0 "+n+" "+n+")"), in.Type())
		}
	}
	if fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return g.mkV(x.t, in.Type())
	}
	if tok && tb.Info()&types.IsString != 0 && fok && fb.Info()&types.IsInteger != 0 {
		fn := g.uf("rune2str", []string{"Int"}, "Str")
		return g.mkV(app(fn, x.t), in.Type())
	}
	// anything else: uninterpreted
	fn := g.uf("conv."+TS(in.X.Type())+"->"+TS(in.Type()), []string{g.sort(in.X.Type())}, g.sort(in.Type()))
	x = f.materialize(x, c, nil)
	v := g.mkV(g.define(in.Name(), g.sort(in.Type()), app(fn, x.t)), in.Type())
	g.assumeType(c.guard, v.t, in.Type(), c.st)
	return v
}

func (f *frame) typeAssert(in *ssa.TypeAssert, c *cur) {
	g := f.g
	x := f.val(in.X, c)
	var ok string
	var v *V
	at := types.Unalias(in.AssertedType)
	if it, isI := at.Underlying().(*types.Interface); isI {
		if x.dyn != nil {
			if types.Implements(x.dyn.ty, it) {
				ok = "true"
			} else {
				ok = "false"
			}
		} else {
			g.tagAll()
			ok = g.define("ok", "Bool", app(g.implPred(at), "(typeof "+x.t+")"))
		}
		v = &V{t: x.t, ty: at, dyn: x.dyn}
		if in.CommaOk {
			zv := "nilAny"
			vv := &V{t: g.define(in.Name(), "Any", ite(ok, x.t, zv)), ty: at}
			if ok == "true" {
				vv.dyn = x.dyn
			}
			v = vv
		}
	} else {
		if x.dyn != nil {
			if types.Identical(x.dyn.ty, at) {
				ok = "true"
				v = x.dyn
			} else {
				ok = "false"
				v = g.mkV(g.zero(at), at)
			}
		} else {
			_, unbox := g.boxes(at)
			ok = g.define("ok", "Bool", eq("(typeof "+x.t+")", fmt.Sprint(g.tag(at))))
			t := app(unbox, x.t)
			if in.CommaOk {
				t = ite(ok, t, g.zero(at))
			}
			v = g.mkV(g.define(in.Name(), g.sort(at), t), at)
			g.assumeType(and(c.guard, ok), v.t, at, c.st)
		}
	}
	if in.CommaOk {
		f.vals[in] = &V{ty: in.Type(), tup: []*V{v, g.mkV(ok, types.Typ[types.Bool])}}
		return
	}
	f.safety(c, ok, "type assertion", in)
	f.vals[in] = v
}

// tagAll registers every named type of the module (and pointers to them), so
// that interface-implementation facts are complete for known types.
func (g *Gen) tagAll() {
	for _, n := range g.P.Named {
		if n.Obj().Pkg().Path() != RepoModule {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		g.tag(n)
		g.tag(types.NewPointer(n))
	}
}

func (f *frame) slice(in *ssa.Slice, c *cur) {
	g := f.g
	x := f.val(in.X, c)
	get := func(v ssa.Value, def string) string {
		if v == nil {
			return def
		}
		return f.val(v, c).t
	}
	switch u := types.Unalias(in.X.Type()).Underlying().(type) {
	case *types.Pointer: // pointer to array
		at := types.Unalias(u.Elem()).Underlying().(*types.Array)
		if x.addr != nil && x.addr.kind == "var" && len(x.addr.path) == 0 && in.Low == nil && in.High == nil {
			// compiler generated literal
			n := int(at.Len())
			if n <= 64 {
				arr := g.get(c.st, x.addr.key)
				v := &V{ty: in.Type(), lit: true}
				for i := 0; i < n; i++ {
					el := g.arrElem(arr, i, at.Elem())
					ev := g.mkV(el, at.Elem())
					if d := f.litElem(in.X, i); d != nil {
						if dv, ok := f.vals[d]; ok {
							ev = dv
							if dv.lit || (dv.addr != nil && dv.t == "") {
								ev = g.mkV(el, at.Elem())
							}
						}
					}
					v.lits = append(v.lits, ev)
				}
				if rs := in.Referrers(); rs != nil {
					// kept as a literal only for the one call it is an argument of
					calls := 0
					for _, r := range *rs {
						switch r.(type) {
						case *ssa.Call, *ssa.DebugRef:
							calls++
						default:
							calls += 2
						}
					}
					if calls != 1 {
						v = f.materialize(v, c, nil)
					}
				}
				f.vals[in] = v
				return
			}
		}
		a := f.addrOf(x, c)
		arr := g.load(c.st, a)
		b := g.alloc(c.st)
		k := g.ekey(at.Elem())
		g.set(c.st, k, store(g.get(c.st, k), b, arr))
		g.record(k, "")
		lo, hi := get(in.Low, "0"), get(in.High, fmt.Sprint(at.Len()))
		g.Assumed["slicing an array copies it (aliasing between array variable and slice not modelled)"] = true
		f.safety(c, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+fmt.Sprint(at.Len())+")"), "slice bounds", in)
		f.vals[in] = g.mkV(g.define(in.Name(), SliceSort, fmt.Sprintf("(mkSlice %s %s (- %s %s) (- %d %s))", b, lo, hi, lo, at.Len(), lo)), in.Type())
	case *types.Slice:
		x = f.materialize(x, c, nil)
		lo, hi := get(in.Low, "0"), get(in.High, "(s.len "+x.t+")")
		f.safety(c, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (s.cap "+x.t+"))"), "slice bounds", in)
		nc := "(- (s.cap " + x.t + ") " + lo + ")"
		if in.Max != nil {
			nc = "(- " + get(in.Max, "") + " " + lo + ")"
		}
		off := "(+ (s.off " + x.t + ") " + lo + ")"
		if lo == "0" {
			off = "(s.off " + x.t + ")"
		}
		ln := "(- " + hi + " " + lo + ")"
		if lo == "0" {
			ln = hi
			if in.Max == nil {
				nc = "(s.cap " + x.t + ")"
			}
		}
		f.vals[in] = g.mkV(g.define(in.Name(), SliceSort, fmt.Sprintf("(mkSlice (s.base %s) %s %s %s)", x.t, off, ln, nc)), in.Type())
	default: // string
		lo, hi := get(in.Low, "0"), get(in.High, "(slen "+x.t+")")
		f.safety(c, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (slen "+x.t+"))"), "string slice bounds", in)
		f.vals[in] = g.mkV(g.define(in.Name(), "Str", app("ssub", x.t, lo, hi)), in.Type())
	}
}

// litElem finds the value stored into element i of a literal's backing array
func (f *frame) litElem(arr ssa.Value, i int) ssa.Value {
	var found ssa.Value
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		cst, ok := ia.Index.(*ssa.Const)
		if !ok || cst.Int64() != int64(i) {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				if found != nil {
					return nil
				}
				found = st.Val
			}
		}
	}
	return found
}

func (g *Gen) arrElem(arr string, i int, et types.Type) string {
	return g.define("le", g.sort(et), sel(arr, fmt.Sprint(i)))
}

func (f *frame) lookup(in *ssa.Lookup, c *cur) {
	g := f.g
	x, i := f.val(in.X, c), f.val(in.Index, c)
	if mt, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map); ok {
		d, vv, ml := g.mkeys(in.X.Type())
		has := g.define("has", "Bool", and(not(eq(x.t, "0")), sel(sel(g.get(c.st, d), x.t), i.t)))
		v := g.define(in.Name(), g.sort(mt.Elem()), ite(has, sel(sel(g.get(c.st, vv), x.t), i.t), g.zero(mt.Elem())))
		g.assumeType(c.guard, v, mt.Elem(), c.st)
		g.assume(c.guard, imp(has, "(>= "+sel(g.get(c.st, ml), x.t)+" 1)"))
		if in.CommaOk {
			f.vals[in] = &V{ty: in.Type(), tup: []*V{g.mkV(v, mt.Elem()), g.mkV(has, types.Typ[types.Bool])}}
		} else {
			f.vals[in] = g.mkV(v, in.Type())
		}
		return
	}
	f.safety(c, inRange(i.t, "(slen "+x.t+")"), "string index", in)
	f.vals[in] = g.mkV(g.define(in.Name(), "Int", app("sat", x.t, i.t)), in.Type())
}

func (f *frame) next(in *ssa.Next, c *cur) {
	g := f.g
	it := f.val(in.Iter, c).iter
	if it == nil {
		unsup("next")
	}
	if it.isStr {
		// decode rune at position: abstract rune and width 1..4
		p := g.get(c.st, it.posKey)
		ok := g.define("ok", "Bool", "(< "+p+" (slen "+it.m.t+"))")
		r := g.freshSym("rune", "Int")
		w := g.freshSym("w", "Int")
		g.assume(c.guard, and("(<= 0 "+r+")", "(<= "+r+" 1114111)", "(<= 1 "+w+")", "(<= "+w+" 4)", imp(ok, "(<= (+ "+p+" "+w+") (slen "+it.m.t+"))")))
		// ASCII bytes decode to themselves
		g.assume(c.guard, imp(and(ok, "(< (sat "+it.m.t+" "+p+") 128)"), and(eq(r, "(sat "+it.m.t+" "+p+")"), eq(w, "1"))))
		g.assume(c.guard, imp(and(ok, "(>= (sat "+it.m.t+" "+p+") 128)"), "(>= "+r+" 128)"))
		g.set(c.st, it.posKey, ite(ok, "(+ "+p+" "+w+")", p))
		g.record(it.posKey, "")
		f.vals[in] = &V{ty: in.Type(), tup: []*V{g.mkV(ok, types.Typ[types.Bool]), g.mkV(p, types.Typ[types.Int]), g.mkV(r, types.Typ[types.Rune])}}
		return
	}
	ks := g.sort(it.mt.Key())
	vis := g.get(c.st, it.key)
	d, vv, _ := g.mkeys(it.m.ty)
	dom := sel(g.get(c.st, d), it.m.t)
	ok := g.freshSym("more", "Bool")
	k := g.freshSym("k", ks)
	g.assume(and(c.guard, ok), and(not(eq(it.m.t, "0")), sel(dom, k), not(sel(vis, k))))
	g.assume(and(c.guard, not(ok)), fmt.Sprintf("(or (= %s 0) (forall ((kk %s)) (! (=> (select %s kk) (select %s kk)) :pattern ((select %s kk)) :pattern ((select %s kk)))))", it.m.t, ks, dom, vis, dom, vis))
	v := g.define("mv", g.sort(it.mt.Elem()), sel(sel(g.get(c.st, vv), it.m.t), k))
	g.assumeType(c.guard, v, it.mt.Elem(), c.st)
	g.set(c.st, it.key, ite(ok, store(vis, k, "true"), vis))
	g.record(it.key, "")
	f.vals[in] = &V{ty: in.Type(), tup: []*V{g.mkV(ok, types.Typ[types.Bool]), g.mkV(k, it.mt.Key()), g.mkV(v, it.mt.Elem())}}
}
