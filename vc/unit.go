package vc

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// UnitResult is the outcome of verifying one function against its contract.
type UnitResult struct {
	Key       string
	Obls      []*Obl
	Failed    []*Obl
	Undecided string // construct outside the subset
	Vacuous   bool
	Assumed   []string
	Used      []string
	Inlined   []string
	Invs      []string
	Millis    int64
	Cands     int
}

// Build generates the obligations of a unit.
func Build(p *Program, cs *Contracts, key string) (g *Gen, exits []string, err error) {
	ckey, fkey := key, key
	if a, b, ok := strings.Cut(key, " @ "); ok {
		ckey, fkey = a, b
	} else if a, _, ok := strings.Cut(key, "'"); ok {
		fkey = a // a further contract of the same function
	}
	con := cs.For(ckey)
	if con == nil {
		return nil, nil, fmt.Errorf("no contract for %s", ckey)
	}
	fn := p.Funcs[fkey]
	if fn == nil {
		return nil, nil, fmt.Errorf("function %s not found in /repo", key)
	}
	if len(con.Params) != len(fn.Params) {
		return nil, nil, fmt.Errorf("function %s: contract names %d parameters, code has %d", key, len(con.Params), len(fn.Params))
	}
	g = NewGen(p, cs)
	g.unit = key
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = fmt.Errorf("outside the modelled subset: %s", u.Msg)
				return
			}
			panic(r)
		}
	}()
	f := g.newFrame(fn, nil)
	g.root = f
	f.con = con
	f.rtexit = con.Flags["rtexit"]
	c := &cur{guard: "true", st: State{}}
	c.st[g.allocKey()] = g.get(c.st, g.allocKey())
	var args []*V
	for _, prm := range fn.Params {
		s := g.freshSym("p."+prm.Name(), g.sort(prm.Type()))
		v := g.mkV(s, prm.Type())
		g.assumeType("true", s, prm.Type(), c.st)
		args = append(args, v)
	}
	for i, n := range con.Params {
		if tt, ok := con.Dyn[n]; ok {
			t := g.typeByText(tt, con.Where)
			s := g.freshSym("dyn."+n, g.sort(t))
			g.assumeType("true", s, t, c.st)
			box, _ := g.boxes(t)
			args[i] = &V{t: g.define("p."+n, "Any", app(box, s)), ty: args[i].ty, dyn: &V{t: s, ty: t}}
		}
	}
	cargs := args // as the contract sees them
	if strings.HasPrefix(ckey, "iface ") {
		cargs = append([]*V{}, args...)
		box, _ := g.boxes(args[0].ty)
		cargs[0] = &V{t: g.define("recv", "Any", app(box, args[0].t)), ty: types.NewInterfaceType(nil, nil), dyn: args[0]}
		if _, ok := types.Unalias(args[0].ty).(*types.Pointer); ok {
			g.assume("true", "(not (= "+args[0].t+" 0))")
			g.Assumed["no nil pointer is boxed in interface values ("+strings.TrimPrefix(ckey, "iface ")+")"] = true
		}
	}
	var bind []*V
	for _, fv := range fn.FreeVars {
		pt, ok := types.Unalias(fv.Type()).Underlying().(*types.Pointer)
		if !ok {
			return nil, nil, fmt.Errorf("function %s: captured value %s", key, fv.Name())
		}
		k := g.key("L.fv."+fv.Name(), g.sort(pt.Elem()), pt.Elem())
		c.st[k] = g.get(c.st, k)
		g.assumeType("true", c.st[k], pt.Elem(), c.st)
		bind = append(bind, &V{ty: fv.Type(), addr: &Addr{kind: "var", key: k, root: pt.Elem(), ty: pt.Elem()}})
	}
	if len(bind) > 0 {
		g.cellsFor[con] = cellsOf(fn, bind)
	}
	f.args = args
	args, rargs := cargs, args
	env := f.conEnv(con, args, nil, c.st, c.st)
	for _, r := range con.Req {
		g.assume("true", env.boolExpr(r))
	}
	entry := c.st.clone()
	if own := cs.By[fkey]; con.Flags["refine"] && fkey != ckey && own != nil {
		// behavioural subtyping: the implementation's own contract (its own
		// unit) implies this one
		f.entry = c.st.clone()
		var rt types.Type = fn.Signature.Results()
		if fn.Signature.Results().Len() == 1 {
			rt = fn.Signature.Results().At(0).Type()
		} else if fn.Signature.Results().Len() == 0 {
			rt = nil
		}
		v := f.callContract(nil, own, fn, rargs, c, rt)
		ex := exit{guard: c.guard, st: c.st, pos: "refine"}
		if v != nil && v.tup != nil {
			ex.vals = v.tup
		} else if v != nil && rt != nil {
			ex.vals = []*V{v}
		}
		f.rets = append(f.rets, ex)
	} else {
		g.runFunc(f, rargs, bind, c)
	}
	f.entry = entry
	for i, e := range f.rets {
		cc := &cur{guard: e.guard, st: e.st}
		var res *V
		switch len(e.vals) {
		case 0:
		case 1:
			res = e.vals[0]
		default:
			res = &V{tup: e.vals}
		}
		exits = append(exits, e.guard)
		env := f.conEnv(con, args, res, cc.st, entry)
		for _, en := range con.Ens {
			if en.Trust {
				continue
			}
			t := env.boolExpr(en)
			g.oblige(&Obl{Name: "ensures:" + key + ":" + en.Label + "@" + fmt.Sprintf("exit%d", i+1), Kind: "ensures", Guard: e.guard, Goal: t, Tags: en.Tags, Text: en.Text, Pos: e.pos})
		}
		f.frameObls(con, args, e, entry)
	}
	for i, e := range f.panics {
		if con.MayPanic() {
			env := f.conEnv(con, args, nil, e.st, entry)
			env.vars["panicval"] = e.pval
			for _, p := range con.Pan {
				t := env.boolExpr(p)
				g.oblige(&Obl{Name: "panics:" + key + ":" + p.Label + "@" + fmt.Sprintf("panic%d", i+1), Kind: "panics", Guard: e.guard, Goal: t, Tags: p.Tags, Text: p.Text, Pos: e.pos})
			}
			f.frameObls(con, args, e, entry)
		} else {
			g.oblige(&Obl{Name: "nopanic:" + key + "@" + e.pos, Kind: "safety", Guard: e.guard, Goal: "false", Text: "panic is unreachable", Pos: e.pos})
		}
	}
	g.emitLemmas()
	return g, exits, nil
}

// frameGoal states what a contract's frame allows of a heap key between entry
// and a state where the key has value n ("" when anything is allowed).
func (f *frame) frameGoal(con *Contract, args []*V, entry State) func(k, n string) string {
	g := f.g
	allowed := map[string]*effect{}
	env := f.conEnv(con, args, nil, entry, entry)
	for _, m := range con.Mod {
		for _, p := range env.places(m) {
			a := allowed[p.key]
			if a == nil {
				a = &effect{key: p.key}
				allowed[p.key] = a
			}
			switch p.ref {
			case freshRef:
				a.fresh = true
			case "":
				a.whole = true
			default:
				a.points = append(a.points, p.ref)
			}
		}
	}
	ea := g.get(entry, g.allocKey())
	return func(k, n string) string {
		o := g.get(entry, k)
		if o == n {
			return ""
		}
		a := allowed[k]
		if a != nil && a.whole {
			return ""
		}
		if !g.isRefKey(k) {
			return eq(n, o)
		}
		var cond []string
		if a != nil {
			for _, p := range a.points {
				if strings.HasPrefix(k, "E.") {
					cond = append(cond, or(eq("r", "0"), not(eq("r", p))))
				} else {
					cond = append(cond, not(eq("r", p)))
				}
			}
		}
		// cells allocated during the call are unconstrained in the caller's state
		cond = append(cond, "(< r "+ea+")")
		return fmt.Sprintf("(forall ((r Int)) (! %s :pattern ((select %s r))))", imp(and(cond...), eq(sel(n, "r"), sel(o, "r"))), n)
	}
}

func (f *frame) frameObls(con *Contract, args []*V, e exit, entry State) {
	if !con.HasMod {
		return
	}
	g := f.g
	fg := f.frameGoal(con, args, entry)
	if cells := g.cellsFor[con]; len(cells) > 0 {
		mods := cellMods(con)
		for _, n := range sortedAddr(cells) {
			if a := cells[n]; !mods[n] && g.load(e.st, a) != g.load(entry, a) {
				g.oblige(&Obl{Name: "frame:" + con.Key + ":" + n, Kind: "frame", Guard: e.guard, Goal: eq(g.load(e.st, a), g.load(entry, a)), Text: "only declared variables change", Pos: e.pos})
			}
		}
	}
	for _, k := range keysOf(e.st) {
		if strings.HasPrefix(k, "L.") || strings.HasPrefix(k, "vis.") || strings.HasPrefix(k, "pos.") || k == "$alloc" {
			continue
		}
		if goal := fg(k, e.st[k]); goal != "" {
			g.oblige(&Obl{Name: "frame:" + con.Key + ":" + k, Kind: "frame", Guard: e.guard, Goal: goal, Text: "only declared locations change", Pos: e.pos})
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var buildMu sync.Mutex

// Verify discharges all obligations of one unit.
func Verify(p *Program, cs *Contracts, key string, opt Options) *UnitResult {
	t0 := time.Now()
	r := &UnitResult{Key: key}
	buildMu.Lock() // the loaded program and the contracts are shared
	g, exits, err := Build(p, cs, key)
	buildMu.Unlock()
	defer func() { r.Millis = time.Since(t0).Milliseconds() }()
	if g != nil {
		r.Assumed = sortedKeys(g.Assumed)
		r.Used = sortedKeys(g.Used)
		r.Inlined = sortedKeys(g.Inlined)
	}
	if err != nil {
		r.Undecided = err.Error()
		return r
	}
	opt.Cvc5 = opt.Cvc5 || (g.root != nil && g.root.con != nil && g.root.con.Flags["cvc5"])
	s := newSolver(g, opt)
	s.houdini()
	r.Cands = len(g.Cands)
	for _, c := range g.Cands {
		if c.Active {
			r.Invs = append(r.Invs, c.Loop+" of "+c.Fn+": "+c.Text)
		}
	}
	s.rest(exits)
	r.Vacuous = s.vacuous
	groups := map[string]map[string]bool{} // group -> alt -> allproved
	for _, o := range g.Obls {
		if o.Cand != nil {
			if o.Cand.Active {
				r.Obls = append(r.Obls, o)
			}
			continue
		}
		if o.Group != "" {
			if groups[o.Group] == nil {
				groups[o.Group] = map[string]bool{}
			}
			if _, ok := groups[o.Group][o.Alt]; !ok {
				groups[o.Group][o.Alt] = true
			}
			if o.Status != "proved" {
				groups[o.Group][o.Alt] = false
			}
			continue
		}
		r.Obls = append(r.Obls, o)
		if o.Status != "proved" {
			r.Failed = append(r.Failed, o)
		}
	}
	var gs []string
	for gn := range groups {
		gs = append(gs, gn)
	}
	sort.Strings(gs)
	for _, gn := range gs {
		o := &Obl{Name: "terminates:" + gn, Kind: "variant", Fn: key, Text: "the loop has a variant that decreases", Status: "failed"}
		var as []string
		for a := range groups[gn] {
			as = append(as, a)
		}
		sort.Strings(as)
		for _, a := range as {
			if groups[gn][a] {
				o.Status = "proved"
				o.Backend = "z3"
				o.Text = "variant " + a
				break
			}
		}
		r.Obls = append(r.Obls, o)
		if o.Status != "proved" {
			r.Failed = append(r.Failed, o)
		}
	}
	for _, so := range s.side {
		r.Obls = append(r.Obls, so)
		if so.Status != "proved" {
			r.Failed = append(r.Failed, so)
		}
	}
	return r
}

// FindFunc returns the SSA of a function, for tools.
func FindFunc(p *Program, key string) *ssa.Function { return p.Funcs[key] }
