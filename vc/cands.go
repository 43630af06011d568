package vc

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loc is a program location visible at a loop header.
type loc struct {
	name    string
	ty      types.Type
	mutable bool
	get     func(ph map[*ssa.Phi]*V, st State) *V
}

func isInt(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isSliceT(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok
}

func (f *frame) locations(b *ssa.BasicBlock, phis []*ssa.Phi, mod map[string]bool, points map[string][]string, entrySt State) []loc {
	g := f.g
	var ls []loc
	for _, p := range phis {
		p := p
		ls = append(ls, loc{p.Comment, p.Type(), true, func(ph map[*ssa.Phi]*V, st State) *V { return ph[p] }})
	}
	seen := map[string]bool{}
	for fr := f; fr != nil; fr = fr.parent {
		for _, lv := range fr.allocs {
			lv := lv
			if _, ok := entrySt[lv.key]; !ok || seen[lv.key] {
				continue
			}
			seen[lv.key] = true
			ls = append(ls, loc{lv.nm, lv.ty, mod[lv.key], func(_ map[*ssa.Phi]*V, st State) *V { return g.mkV(g.get(st, lv.key), lv.ty) }})
			// one level of fields of local structs
			if u, ok := types.Unalias(lv.ty).Underlying().(*types.Struct); ok {
				si := g.sinfo(lv.ty)
				for i := 0; i < u.NumFields(); i++ {
					i := i
					ls = append(ls, loc{lv.nm + "." + u.Field(i).Name(), u.Field(i).Type(), mod[lv.key], func(_ map[*ssa.Phi]*V, st State) *V {
						return g.mkV(app(si.fields[i], g.get(st, lv.key)), si.fty[i])
					}})
				}
			}
		}
		for i, a := range fr.args {
			if a == nil || a.t == "" || a.lit {
				continue
			}
			a := a
			ls = append(ls, loc{fr.fn.Params[i].Name(), a.ty, false, func(map[*ssa.Phi]*V, State) *V { return a }})
		}
		for _, ob := range fr.open {
			if ob == b && fr == f {
				continue
			}
			ol := fr.opened[ob]
			if ol == nil || (fr == f && ol.loop != nil && !ol.loop.body[b]) {
				continue
			}
			for p, v := range ol.phis {
				v := v
				ls = append(ls, loc{"outer." + p.Comment, v.ty, false, func(map[*ssa.Phi]*V, State) *V { return v }})
			}
		}
	}
	// values computed before the loop and used in it
	if l := f.loops[b]; l != nil {
		var bs []*ssa.BasicBlock
		for _, x := range f.fn.Blocks {
			if l.body[x] {
				bs = append(bs, x)
			}
		}
		used := map[ssa.Value]bool{}
		var rands [16]*ssa.Value
		for _, x := range bs {
			for _, in := range x.Instrs {
				for _, op := range in.Operands(rands[:0]) {
					v, ok := (*op).(ssa.Instruction)
					if !ok || l.body[v.Block()] || used[*op] {
						continue
					}
					used[*op] = true
					if a := f.vals[*op]; a != nil && a.t != "" && !a.lit && a.tup == nil {
						ls = append(ls, loc{(*op).Name(), (*op).Type(), false, func(map[*ssa.Phi]*V, State) *V { return a }})
					}
				}
			}
		}
	}
	// fields written at known references
	var ks []string
	for k := range points {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		if !strings.HasPrefix(k, "H.") {
			continue
		}
		ty := g.keyType[k]
		if ty == nil {
			continue
		}
		for _, r := range points[k] {
			r := r
			ls = append(ls, loc{k, ty, true, func(_ map[*ssa.Phi]*V, st State) *V { return g.mkV(sel(g.get(st, k), r), ty) }})
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].mutable && !ls[j].mutable })
	return ls
}

// invVal evaluates a loop-invariant SSA value at the loop header.
func (f *frame) invVal(v ssa.Value, l *loop, mod map[string]bool, st State, depth int) (t string, ty types.Type, ok bool) {
	if depth > 6 {
		return
	}
	g := f.g
	if c, is := v.(*ssa.Const); is {
		if c.Value == nil {
			return
		}
		x := g.constV(c)
		return x.t, x.ty, true
	}
	in, isI := v.(ssa.Instruction)
	if !isI || !l.body[in.Block()] {
		if x, has := f.vals[v]; has && x.t != "" && !x.lit {
			return x.t, v.Type(), true
		}
		return
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return
		}
		ad, good := f.invAddr(v.X, l, mod, st, depth+1)
		if !good {
			return
		}
		return g.load(st, ad), v.Type(), true
	case *ssa.BinOp:
		a, _, ok1 := f.invVal(v.X, l, mod, st, depth+1)
		b, _, ok2 := f.invVal(v.Y, l, mod, st, depth+1)
		if ok1 && ok2 && isInt(v.Type()) && (v.Op == token.ADD || v.Op == token.SUB) {
			return app(v.Op.String(), a, b), v.Type(), true
		}
	case *ssa.Call:
		if bi, is := v.Call.Value.(*ssa.Builtin); is && bi.Name() == "len" {
			a, aty, ok1 := f.invVal(v.Call.Args[0], l, mod, st, depth+1)
			if !ok1 {
				return "", nil, false
			}
			switch types.Unalias(aty).Underlying().(type) {
			case *types.Slice:
				return "(s.len " + a + ")", v.Type(), true
			case *types.Basic:
				return "(slen " + a + ")", v.Type(), true
			}
		}
	}
	return
}

func (f *frame) invAddr(v ssa.Value, l *loop, mod map[string]bool, st State, depth int) (*Addr, bool) {
	g := f.g
	if depth > 6 {
		return nil, false
	}
	in, isI := v.(ssa.Instruction)
	if !isI || !l.body[in.Block()] {
		x, has := f.vals[v]
		if !has {
			if _, isG := v.(*ssa.Global); isG {
				x = f.val(v, nil)
			} else {
				return nil, false
			}
		}
		ad := f.addrOf(x, nil)
		if ad.kind == "var" && mod[ad.key] {
			return nil, false
		}
		return ad, true
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		var base *Addr
		if b, ok := f.invAddr(v.X, l, mod, st, depth+1); ok {
			base = b
		} else {
			t, ty, ok := f.invVal(v.X, l, mod, st, depth+1)
			if !ok {
				return nil, false
			}
			base = f.addrOf(g.mkV(t, ty), nil)
		}
		ad := g.fieldAddr(base, types.Unalias(v.X.Type().Underlying().(*types.Pointer).Elem()), v.Field)
		if mod[ad.key] {
			return nil, false
		}
		return ad, true
	case *ssa.UnOp:
		t, ty, ok := f.invVal(v, l, mod, st, depth+1)
		if !ok {
			return nil, false
		}
		if _, isP := types.Unalias(ty).Underlying().(*types.Pointer); !isP {
			return nil, false
		}
		return f.addrOf(g.mkV(t, ty), nil), true
	}
	return nil, false
}

func (f *frame) loopIter(b *ssa.BasicBlock, l *loop) *mapIter {
	for _, x := range f.order {
		if !l.body[x] {
			continue
		}
		for _, in := range x.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if v, ok := f.vals[n.Iter]; ok && v.iter != nil {
					if ri, ok := n.Iter.(ssa.Instruction); ok && !l.body[ri.Block()] {
						return v.iter
					}
				}
			}
		}
	}
	return nil
}

// enclosingIter: iteration of the innermost map-range loop around this one
func (f *frame) enclosingIter(b *ssa.BasicBlock, l *loop) *mapIter {
	if it := f.loopIter(b, l); it != nil && !it.isStr {
		return it
	}
	for fr := f; fr != nil; fr = fr.parent {
		for i := len(fr.open) - 1; i >= 0; i-- {
			ob := fr.open[i]
			ol := fr.opened[ob]
			if ol == nil || ol.loop == nil {
				continue
			}
			if fr == f && !ol.loop.body[b] {
				continue
			}
			if it := fr.loopIter(ob, ol.loop); it != nil && !it.isStr {
				return it
			}
		}
	}
	return nil
}

func (f *frame) makeCands(l *loop, b *ssa.BasicBlock, ol *openLoop, phis []*ssa.Phi, mod map[string]bool, points map[string][]string, c *cur) {
	g := f.g
	fnKey := FuncKey(f.fn)
	g.candCount[fnKey]++
	loopName := fmt.Sprintf("loop%d", g.candCount[fnKey])
	ol.name = fnKey + "/" + loopName
	entrySt := ol.entrySt
	locs := f.locations(b, phis, mod, points, entrySt)
	lean := g.root != nil && g.root.con != nil && g.root.con.Flags["lean"]
	add := func(text string, auto bool, ev func(ph map[*ssa.Phi]*V, st State) string) {
		if lean && auto && text != "alloc grows" && (strings.HasPrefix(text, "E.") || !strings.HasSuffix(text, "unchanged at references older than the loop")) {
			return
		}
		fl := q(fmt.Sprintf("cand!%d", len(g.Cands)))
		g.pre = append(g.pre, "(declare-const "+fl+" Bool)")
		cd := &Cand{Flag: fl, Text: text, Fn: fnKey, Loop: loopName, Auto: auto, Active: true}
		g.Cands = append(g.Cands, cd)
		ol.evals = append(ol.evals, candEval{cd, ev})
	}
	eAlloc := g.get(entrySt, g.allocKey())
	ak := g.allocKey()
	if mod[ak] {
		add("alloc grows", true, func(_ map[*ssa.Phi]*V, st State) string { return "(>= " + g.get(st, ak) + " " + eAlloc + ")" })
	}
	var ks []string
	for k := range mod {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	entry := func(lc loc) *V { return lc.get(ol.entryPh, entrySt) }
	var mslices []loc
	for _, lc := range locs {
		if lc.mutable && isSliceT(lc.ty) {
			mslices = append(mslices, lc)
		}
	}
	root0 := f
	for root0.parent != nil {
		root0 = root0.parent
	}
	if root0.con != nil && root0.con.HasMod {
		fg := root0.frameGoal(root0.con, root0.args, root0.entry)
		for _, k := range ks {
			k := k
			if strings.HasPrefix(k, "E.") && fg(k, "probe") != "" {
				add(k+" changes only as the contract allows", true, func(_ map[*ssa.Phi]*V, st State) string {
					if t := fg(k, g.get(st, k)); t != "" {
						return t
					}
					return "true"
				})
			}
		}
	}
	for _, k := range ks {
		k := k
		if !g.isRefKey(k) {
			continue
		}
		if _, ok := points[k]; ok {
			continue
		}
		old := g.get(entrySt, k)
		frameC := func(excl []string) func(map[*ssa.Phi]*V, State) string {
			return func(_ map[*ssa.Phi]*V, st State) string {
				nw := g.get(st, k)
				cond := []string{"(< r " + eAlloc + ")"}
				for _, e := range excl {
					if strings.HasPrefix(k, "E.") {
						cond = append(cond, "(or (= r 0) (not (= r "+e+")))")
					} else {
						cond = append(cond, "(not (= r "+e+"))")
					}
				}
				return fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", and(cond...), nw, old, nw)
			}
		}
		add(k+" unchanged at references older than the loop", true, frameC(nil))
		if strings.HasPrefix(k, "E.") {
			var all []string
			for _, lc := range mslices {
				if k != g.ekey(types.Unalias(lc.ty).Underlying().(*types.Slice).Elem()) {
					continue
				}
				bs := "(s.base " + entry(lc).t + ")"
				all = append(all, bs)
				add(k+" unchanged at older references except base of "+lc.name, true, frameC([]string{bs}))
			}
			if len(all) > 1 {
				add(k+" unchanged at older references except bases of modified slices", true, frameC(all))
			}
		} else if strings.HasPrefix(k, "M") || strings.HasPrefix(k, "H.") {
			var refs []string
			for _, lc := range locs {
				if lc.mutable {
					continue
				}
				switch u := types.Unalias(lc.ty).Underlying().(type) {
				case *types.Map:
					if d, v, ml := g.mkeys(lc.ty); d == k || v == k || ml == k {
						refs = append(refs, entry(lc).t)
					}
				case *types.Pointer:
					if strings.HasPrefix(k, "H."+TS(u.Elem())+".") {
						refs = append(refs, entry(lc).t)
					}
				}
			}
			if len(refs) > 0 && len(refs) <= 4 {
				for _, r := range refs {
					add(k+" unchanged at older references except "+r, true, frameC([]string{r}))
				}
			}
		}
	}
	for i, lc := range mslices {
		lc := lc
		e := entry(lc)
		if e == nil || e.lit || e.t == "" {
			continue
		}
		et := types.Unalias(lc.ty).Underlying().(*types.Slice).Elem()
		ek := g.ekey(et)
		erow := sel(g.get(entrySt, ek), "(s.base "+e.t+")")
		add(lc.name+": same backing or fresh", true, func(ph map[*ssa.Phi]*V, st State) string {
			v := lc.get(ph, st)
			return or(eq("(s.base "+v.t+")", "(s.base "+e.t+")"), "(>= (s.base "+v.t+") "+eAlloc+")")
		})
		add(lc.name+": fresh or nil", true, func(ph map[*ssa.Phi]*V, st State) string {
			v := lc.get(ph, st)
			return or(eq("(s.base "+v.t+")", "0"), "(>= (s.base "+v.t+") "+eAlloc+")")
		})
		add(lc.name+": len grows", true, func(ph map[*ssa.Phi]*V, st State) string {
			return "(>= (s.len " + lc.get(ph, st).t + ") (s.len " + e.t + "))"
		})
		add(lc.name+": len and backing fixed", true, func(ph map[*ssa.Phi]*V, st State) string {
			v := lc.get(ph, st).t
			return and("(= (s.len "+v+") (s.len "+e.t+"))", "(= (s.base "+v+") (s.base "+e.t+"))")
		})
		add(lc.name+": offset fixed", true, func(ph map[*ssa.Phi]*V, st State) string {
			return "(= (s.off " + lc.get(ph, st).t + ") (s.off " + e.t + "))"
		})
		add(lc.name+": prefix kept", true, func(ph map[*ssa.Phi]*V, st State) string {
			v := lc.get(ph, st).t
			row := sel(g.get(st, ek), "(s.base "+v+")")
			return fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j (s.len %s))) (= (select %s (ix (s.off %s) j)) (select %s (ix (s.off %s) j)))) :pattern ((select %s (ix (s.off %s) j))) :pattern ((select %s (ix (s.off %s) j)))))", e.t, row, v, erow, e.t, row, v, erow, e.t)
		})
		switch types.Unalias(et).Underlying().(type) {
		case *types.Pointer, *types.Interface:
			add(lc.name+": no nil element", true, func(ph map[*ssa.Phi]*V, st State) string {
				v := lc.get(ph, st).t
				x := fmt.Sprintf("(select %s (ix (s.off %s) j))", sel(g.get(st, ek), "(s.base "+v+")"), v)
				nn := "(not (= " + x + " 0))"
				if g.sort(et) == "Any" {
					nn = "(not (= (typeof " + x + ") 0))"
				}
				return fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j (s.len %s))) %s) :pattern (%s)))", v, nn, x)
			})
		}
		for j := i + 1; j < len(mslices); j++ {
			l2 := mslices[j]
			if TS(types.Unalias(l2.ty).Underlying().(*types.Slice).Elem()) != TS(et) {
				continue
			}
			add(lc.name+","+l2.name+": distinct backing", true, func(ph map[*ssa.Phi]*V, st State) string {
				a, b := lc.get(ph, st).t, l2.get(ph, st).t
				return or(not(eq("(s.base "+a+")", "(s.base "+b+")")), eq("(s.base "+a+")", "0"))
			})
		}
	}
	// int bounds
	var limits []string
	seenL := map[string]bool{}
	for _, x := range f.order {
		if !l.body[x] {
			continue
		}
		for _, in := range x.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !isInt(bo.X.Type()) {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if t, _, ok := f.invVal(o, l, mod, entrySt, 0); ok && !seenL[t] {
						seenL[t] = true
						limits = append(limits, t)
					}
				}
			}
		}
	}
	var mints []loc
	for _, lc := range locs {
		if lc.mutable && isInt(lc.ty) {
			mints = append(mints, lc)
		}
	}
	for _, lc := range mints {
		lc := lc
		e := entry(lc)
		add(lc.name+" >= start", true, func(ph map[*ssa.Phi]*V, st State) string { return "(>= " + lc.get(ph, st).t + " " + e.t + ")" })
		add(lc.name+" <= start", true, func(ph map[*ssa.Phi]*V, st State) string { return "(<= " + lc.get(ph, st).t + " " + e.t + ")" })
		if len(limits) <= 8 {
			for _, lim := range limits {
				lim := lim
				add(lc.name+" <= "+lim, true, func(ph map[*ssa.Phi]*V, st State) string { return "(<= " + lc.get(ph, st).t + " " + lim + ")" })
				add(lc.name+" < "+lim, true, func(ph map[*ssa.Phi]*V, st State) string { return "(< " + lc.get(ph, st).t + " " + lim + ")" })
				add(lc.name+" >= "+lim, true, func(ph map[*ssa.Phi]*V, st State) string { return "(>= " + lc.get(ph, st).t + " " + lim + ")" })
			}
		}
		for _, ms := range locs {
			if !isSliceT(ms.ty) || len(mints) > 6 {
				continue
			}
			ms := ms
			add(lc.name+" <= len("+ms.name+")", true, func(ph map[*ssa.Phi]*V, st State) string {
				v := ms.get(ph, st)
				return "(<= " + lc.get(ph, st).t + " (s.len " + v.t + "))"
			})
		}
	}
	it := f.loopIter(b, l)
	if it != nil && !it.isStr {
		d, _, _ := g.mkeys(it.m.ty)
		ksrt := g.sort(it.mt.Key())
		add("visited keys are keys", true, func(_ map[*ssa.Phi]*V, st State) string {
			vis := g.get(st, it.key)
			return fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select (select %s %s) k)) :pattern ((select %s k))))", ksrt, vis, g.get(st, d), it.m.t, vis)
		})
	}
	if it != nil && it.isStr {
		add("string position in range", true, func(_ map[*ssa.Phi]*V, st State) string {
			p := g.get(st, it.posKey)
			return and("(<= 0 "+p+")", "(<= "+p+" (slen "+it.m.t+"))")
		})
	}
	// user templates
	mit := f.enclosingIter(b, l)
	mkEnv := func(fr *frame, con *Contract, ph map[*ssa.Phi]*V, st State, binds []bindLoc) *env {
		en := fr.conEnv(con, fr.args, nil, st, fr.entry)
		en.f = f
		en.pre = entrySt
		if mit != nil {
			en.visKey = mit.key
		}
		pv := map[string]*V{}
		for k, v := range en.vars {
			pv[k] = v
		}
		for _, bd := range binds {
			en.vars[bd.name] = bd.get(ph, st)
			pv[bd.name] = bd.get(ol.entryPh, entrySt)
		}
		en.preVars = pv
		return en
	}
	for fr := f; fr != nil; fr = fr.parent {
		con := fr.con
		if con == nil {
			continue
		}
		fr := fr
		for _, cl := range con.Inv {
			cl := cl
			if cl.LoopsOf > 0 && len(fr.loops) == cl.LoopsOf && (fr != f || !cl.Loops[g.candCount[fnKey]]) {
				continue
			}
			for _, binds := range f.bindMeta(cl.Meta, locs, b) {
				binds := binds
				txt := cl.Text
				for _, bd := range binds {
					txt += " {" + bd.name + "=" + bd.desc + "}"
				}
				add(txt, false, func(ph map[*ssa.Phi]*V, st State) string {
					return mkEnv(fr, con, ph, st, binds).boolExpr(cl)
				})
			}
		}
	}
	if len(ol.evals) > 1500 {
		unsup("too many invariant candidates in %s", fnKey)
	}
	// variants
	root := f
	for root.parent != nil {
		root = root.parent
	}
	if root.con != nil && root.con.Flags["terminates"] {
		addV := func(n string, ev func(ph map[*ssa.Phi]*V, st State) string) {
			ol.alts = append(ol.alts, variantAlt{n, ev})
		}
		if it != nil && !it.isStr {
			return // map iteration ends: the domain is finite
		}
		if it != nil && it.isStr {
			addV("string position", func(_ map[*ssa.Phi]*V, st State) string {
				return "(- (slen " + it.m.t + ") " + g.get(st, it.posKey) + ")"
			})
		}
		for _, lc := range mints {
			lc := lc
			for _, lim := range limits {
				lim := lim
				addV(lim+" - "+lc.name, func(ph map[*ssa.Phi]*V, st State) string { return "(- " + lim + " " + lc.get(ph, st).t + ")" })
			}
			addV(lc.name, func(ph map[*ssa.Phi]*V, st State) string { return "(+ 1 " + lc.get(ph, st).t + ")" })
		}
		for fr := f; fr != nil; fr = fr.parent {
			con := fr.con
			if con == nil {
				continue
			}
			fr := fr
			for _, cl := range con.Dec {
				cl := cl
				for _, binds := range f.bindMeta(cl.Meta, locs, b) {
					binds := binds
					addV(cl.Text, func(ph map[*ssa.Phi]*V, st State) string {
						return mkEnv(fr, con, ph, st, binds).boolExpr(cl)
					})
				}
			}
		}
		if len(ol.alts) == 0 {
			g.oblige(&Obl{Name: "terminates:" + ol.name, Kind: "variant", Guard: c.guard, Goal: "false", Group: ol.name, Alt: "none", Text: "no variant found"})
		}
	}
}

type bindLoc struct {
	name, desc string
	get        func(ph map[*ssa.Phi]*V, st State) *V
}

// outer lists the values computed on every path to the block, used there or not
// (the binder form ^T).
func (f *frame) outer(b *ssa.BasicBlock) []loc {
	var ls []loc
	for _, x := range f.fn.Blocks {
		if x == b || !x.Dominates(b) {
			continue
		}
		for _, in := range x.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if a := f.vals[v]; a != nil && a.t != "" && !a.lit && a.tup == nil {
				ls = append(ls, loc{v.Name(), v.Type(), false, func(map[*ssa.Phi]*V, State) *V { return a }})
			}
		}
	}
	return ls
}

func (f *frame) bindMeta(meta []metaVar, locs []loc, b *ssa.BasicBlock) [][]bindLoc {
	out := [][]bindLoc{nil}
	g := f.g
	for _, m := range meta {
		var opts []bindLoc
		var hint string
		m.ty, hint, _ = strings.Cut(m.ty, "~")
		switch m.ty {
		case "idx", "int", "oidx":
			for _, lc := range locs {
				lc := lc
				if !isInt(lc.ty) || lc.mutable != (m.ty != "oidx") {
					continue
				}
				opts = append(opts, bindLoc{m.name, lc.name, lc.get})
				if m.ty != "int" {
					opts = append(opts, bindLoc{m.name, lc.name + "+1", func(ph map[*ssa.Phi]*V, st State) *V {
						v := lc.get(ph, st)
						return g.mkV("(+ "+v.t+" 1)", v.ty)
					}})
				}
			}
		default:
			want := m.ty
			mutOnly := strings.HasPrefix(want, "!")
			want = strings.TrimPrefix(want, "!")
			locs := locs
			if strings.HasPrefix(want, "^") {
				want = strings.TrimPrefix(want, "^")
				locs = f.outer(b)
			}
			wt := g.typeByText(want, "metavariable")
			for _, lc := range locs {
				lc := lc
				if mutOnly && !lc.mutable {
					continue
				}
				if types.Identical(types.Unalias(lc.ty), wt) || (isSliceT(wt) && isSliceT(lc.ty) && types.Identical(types.Unalias(lc.ty).Underlying(), types.Unalias(wt).Underlying())) {
					opts = append(opts, bindLoc{m.name, lc.name, lc.get})
				}
			}
		}
		if hint != "" {
			var hs []bindLoc
			for _, o := range opts {
				if (hint == "$" && !strings.Contains(o.desc, "H.")) || o.desc == hint || o.desc == hint+"+1" {
					hs = append(hs, o)
				}
			}
			if len(hs) > 0 {
				opts = hs
			}
		}
		var next [][]bindLoc
		for _, o := range out {
			for _, p := range opts {
				next = append(next, append(append([]bindLoc{}, o...), p))
			}
		}
		out = next
	}
	return out
}

func (f *frame) variant(b *ssa.BasicBlock, ol *openLoop, guard string, ph map[*ssa.Phi]*V, st State) {
	g := f.g
	for _, a := range ol.alts {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(Unsupported); !is {
						panic(r)
					}
				}
			}()
			h := a.eval(ol.phis, ol.headSt)
			n := a.eval(ph, st)
			g.oblige(&Obl{Name: "terminates:" + ol.name + ":" + a.name, Kind: "variant", Guard: guard, Goal: and("(>= "+h+" 0)", "(< "+n+" "+h+")"), Group: ol.name, Alt: a.name, Text: "loop variant " + a.name})
		}()
	}
}
