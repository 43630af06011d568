package vc

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State map[string]string

func (s State) clone() State {
	n := make(State, len(s)+4)
	for k, v := range s {
		n[k] = v
	}
	return n
}

type item struct {
	s   string // declaration / definition / assertion text ("" for an obligation)
	obl *Obl
}

// Obl is one proof obligation.
type Obl struct {
	Name  string
	Kind  string // safety, requires, ensures, frame, inv-entry, inv-pres, panics, variant
	Fn    string
	Guard string
	Goal  string
	Cand  *Cand
	Tags  []string
	Text  string
	Pos   string
	Group string // termination: one alternative of the group must be fully proved
	Alt   string

	// results
	Status  string // proved, failed, unknown
	Backend string
	Millis  int64
	LastMs  int64 // time of the last query
	Output  string
}

// Cand is a candidate loop invariant (Houdini style).
type Cand struct {
	Flag   string
	Text   string
	Fn     string
	Loop   string
	Auto   bool
	Active bool
	obls   []*Obl
}

type write struct{ key, ref string }
type recorder struct{ writes []write }

type Gen struct {
	P *Program
	C *Contracts

	pre      []string
	items    []item
	structs  map[string]*structInfo
	strs     map[string]string
	strOrder []string
	tags     map[string]int
	tagTypes []types.Type
	boxed    map[string]bool
	impls    map[string]types.Type
	ufs      map[string]bool

	n        int
	symIdx   map[string]int
	symDef   map[string]string
	catParts map[string][]strPart
	litText  map[string]string
	initVer  map[string]string
	keySort  map[string]string
	rows     map[string]string
	keyType  map[string]types.Type // element/field type of the key
	recs     []*recorder
	dry      int

	Obls  []*Obl
	Cands []*Cand

	Assumed   map[string]bool // assumptions used (externs, models)
	Used      map[string]bool // contracts of repo functions relied upon at call sites
	Inlined   map[string]bool
	frameN    int
	fnIds     map[*ssa.Function]int
	news      map[string][]*V // objects allocated, by pointer type
	oblNames  map[string]int
	unit      string
	specFnsIn map[string]bool
	candCount map[string]int
	MaxInline int
	summaries map[string]*summary
	cellsFor  map[*Contract]map[string]*Addr
	allocRefs map[string]bool
	mgets     map[string]bool
	recs2     map[string]*recInfo
	boundKeys map[string]bool
	sideObls  []sideObl
	lemmasIn  map[string]bool
	root      *frame
}

func NewGen(p *Program, c *Contracts) *Gen {
	g := &Gen{P: p, C: c,
		structs: map[string]*structInfo{}, strs: map[string]string{}, tags: map[string]int{}, boxed: map[string]bool{},
		impls: map[string]types.Type{}, ufs: map[string]bool{}, symIdx: map[string]int{}, symDef: map[string]string{},
		initVer: map[string]string{}, keySort: map[string]string{}, keyType: map[string]types.Type{}, Assumed: map[string]bool{}, Used: map[string]bool{},
		Inlined: map[string]bool{}, fnIds: map[*ssa.Function]int{}, news: map[string][]*V{}, oblNames: map[string]int{}, specFnsIn: map[string]bool{}, candCount: map[string]int{}, MaxInline: 12,
		summaries: map[string]*summary{}, cellsFor: map[*Contract]map[string]*Addr{}, allocRefs: map[string]bool{}, recs2: map[string]*recInfo{}, lemmasIn: map[string]bool{}}
	e := g.strLit("")
	g.pre = append(g.pre, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s "+e+")) :pattern ((slen s)))))")
	return g
}

func (g *Gen) emit(s string) { g.items = append(g.items, item{s: s}) }

func (g *Gen) freshSym(prefix, srt string) string {
	g.n++
	s := q(fmt.Sprintf("%s!%d", prefix, g.n))
	g.symIdx[s] = g.n
	g.emit(fmt.Sprintf("(declare-const %s %s)", s, srt))
	return s
}

func isAtom(t string) bool {
	return !strings.HasPrefix(t, "(")
}

func (g *Gen) define(prefix, srt, term string) string {
	if isAtom(term) {
		return term
	}
	g.n++
	s := q(fmt.Sprintf("%s!%d", prefix, g.n))
	g.symIdx[s] = g.n
	g.symDef[s] = term
	if srt != "Bool" && strings.Contains(term, "(ite ") {
		g.emit(fmt.Sprintf("(declare-const %s %s)", s, srt))
		g.emit(fmt.Sprintf("(assert (= %s %s))", s, term))
		return s
	}
	g.emit(fmt.Sprintf("(define-fun %s () %s %s)", s, srt, term))
	return s
}

func (g *Gen) assume(guard, fact string) {
	if fact == "true" {
		return
	}
	g.emit("(assert " + imp(guard, fact) + ")")
}

func (g *Gen) oblige(o *Obl) {
	if g.dry > 0 {
		return
	}
	if o.Goal == "true" {
		o.Status = "proved"
		o.Backend = "simplifier"
	}
	o.Fn = g.unit
	k := o.Name
	g.oblNames[k]++
	if g.oblNames[k] > 1 {
		o.Name = fmt.Sprintf("%s#%d", k, g.oblNames[k])
	}
	g.Obls = append(g.Obls, o)
	g.items = append(g.items, item{obl: o})
}

// tokens of a term
func symbolsOf(t string) []string {
	var out []string
	i := 0
	for i < len(t) {
		c := t[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			i++
			continue
		}
		j := i
		if c == '|' {
			j = i + 1
			for j < len(t) && t[j] != '|' {
				j++
			}
			j++
		} else {
			for j < len(t) && t[j] != '(' && t[j] != ')' && t[j] != ' ' && t[j] != '\n' {
				j++
			}
		}
		out = append(out, t[i:j])
		i = j
	}
	return out
}

// expandOld rewrites a term so that it only mentions symbols created up to
// index n (expanding definitions); ok is false if that is impossible.
func (g *Gen) expandOld(t string, n int) (string, bool) {
	var sb strings.Builder
	i := 0
	for i < len(t) {
		c := t[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			sb.WriteByte(c)
			i++
			continue
		}
		j := i
		if c == '|' {
			j = i + 1
			for j < len(t) && t[j] != '|' {
				j++
			}
			j++
		} else {
			for j < len(t) && t[j] != '(' && t[j] != ')' && t[j] != ' ' && t[j] != '\n' {
				j++
			}
		}
		s := t[i:j]
		if ix, ok := g.symIdx[s]; ok && ix > n {
			d, ok := g.symDef[s]
			if !ok {
				return "", false
			}
			e, ok := g.expandOld(d, n)
			if !ok {
				return "", false
			}
			s = e
		}
		sb.WriteString(s)
		i = j
	}
	return sb.String(), true
}

// heap keys --------------------------------------------------------------------

func (g *Gen) key(key, srt string, ty types.Type) string {
	if _, ok := g.keySort[key]; !ok {
		g.keySort[key] = srt
		g.keyType[key] = ty
	}
	return key
}

func (g *Gen) get(st State, key string) string {
	if _, ok := st["$bound"]; ok {
		if g.boundKeys != nil {
			g.boundKeys[key] = true
		}
		return q("hb." + key)
	}
	if v, ok := st[key]; ok {
		return v
	}
	v, ok := g.initVer[key]
	if !ok {
		srt := g.keySort[key]
		if srt == "" {
			unsup("internal: no sort for key %s", key)
		}
		v = q(key + "@0")
		g.initVer[key] = v
		g.symIdx[v] = 0
		g.pre = append(g.pre, fmt.Sprintf("(declare-const %s %s)", v, srt))
		if key == "$alloc" {
			g.pre = append(g.pre, "(assert (>= "+v+" 1))")
		}
		g.heapFacts(key, v)
	}
	return v
}

// heapFacts: every cell of the initial heap holds a well-typed value, and the references
// in it are to allocated objects.
func (g *Gen) heapFacts(key, v string) {
	if f := g.cellFacts(key, v, "", g.get(State{}, g.allocKey())); f != "" {
		g.pre = append(g.pre, "(assert "+f+")")
	}
}

// cellFacts: the cells of key at references in [lo, alloc) hold well-typed values.
func (g *Gen) cellFacts(key, v, lo, alloc string) string {
	ty := g.keyType[key]
	if ty == nil {
		return ""
	}
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map:
	case *types.Basic:
		if strings.HasPrefix(key, "E.") {
			return ""
		}
		switch u.Kind() {
		case types.Uint8, types.Int8, types.Uint16, types.Int16, types.Uint32, types.Int32:
		default:
			return ""
		}
	default:
		return ""
	}
	var vars, cell string
	switch {
	case strings.HasPrefix(key, "H."), strings.HasPrefix(key, "C."):
		vars, cell = "((r Int))", "(select "+v+" r)"
	case strings.HasPrefix(key, "E."):
		vars, cell = "((r Int) (i Int))", "(select (select "+v+" r) i)"
	default:
		return ""
	}
	fs := g.typeFacts(cell, ty, alloc, 1)
	if len(fs) == 0 {
		return ""
	}
	rng := "(< r " + alloc + ")"
	if lo != "" {
		rng = "(and (<= " + lo + " r) " + rng + ")"
	}
	return "(forall " + vars + " (! (=> " + rng + " " + and(fs...) + ") :pattern (" + cell + ")))"
}

func (g *Gen) record(key, ref string) {
	for _, r := range g.recs {
		r.writes = append(r.writes, write{key, ref})
	}
}

// set replaces the whole variable.
func (g *Gen) set(st State, key, term string) {
	srt := g.keySort[key]
	if strings.HasPrefix(srt, "(Array") {
		if !isAtom(term) {
			s := g.freshSym(key, srt)
			g.emit("(assert (= " + s + " " + term + "))")
			g.symDef[s] = term // for expansion only
			term = s
		}
	} else {
		term = g.define(key, srt, term)
	}
	st[key] = term
}

func fieldKey(t types.Type, f string) string { return "H." + TS(t) + "." + f }

func (g *Gen) hkey(t types.Type, i int) string {
	u := types.Unalias(t).Underlying().(*types.Struct)
	f := u.Field(i)
	return g.key(fieldKey(t, f.Name()), "(Array Int "+g.sort(f.Type())+")", f.Type())
}

func (g *Gen) ckey(t types.Type) string {
	return g.key("C."+TS(t), "(Array Int "+g.sort(t)+")", t)
}

func elemName(t types.Type) string { return TS(t) }

func (g *Gen) ekey(elem types.Type) string {
	return g.key("E."+elemName(elem), "(Array Int (Array Int "+g.sort(elem)+"))", elem)
}

func (g *Gen) mkeys(t types.Type) (dom, val, ln string) {
	m := types.Unalias(t).Underlying().(*types.Map)
	k, v := g.sort(m.Key()), g.sort(m.Elem())
	n := TS(m.Key()) + "," + TS(m.Elem())
	dom = g.key("MD."+n, "(Array Int (Array "+k+" Bool))", nil)
	val = g.key("MV."+n, "(Array Int (Array "+k+" "+v+"))", m.Elem())
	ln = g.key("ML."+n, "(Array Int Int)", nil)
	return
}

func (g *Gen) allocKey() string { return g.key("$alloc", "Int", nil) }

// addresses ----------------------------------------------------------------------

type pathEl struct {
	st  types.Type // struct type (field) or array type (index)
	fi  int
	idx string // "" for field
}

type Addr struct {
	kind string // "var" (local/global), "heap" (H/C key at ref), "elem" (E key at base, idx), "obj" (whole struct object at ref)
	key  string
	ref  string
	idx  string
	root types.Type
	path []pathEl
	ty   types.Type
}

func (g *Gen) rootRead(st State, a *Addr) string {
	switch a.kind {
	case "var":
		return g.get(st, a.key)
	case "heap":
		return sel(g.get(st, a.key), a.ref)
	case "elem":
		return sel(sel(g.get(st, a.key), a.ref), a.idx)
	case "obj":
		si := g.sinfo(a.root)
		if len(si.fields) == 0 {
			return si.mk
		}
		var xs []string
		for i := range si.fields {
			xs = append(xs, sel(g.get(st, g.hkey(a.root, i)), a.ref))
		}
		return app(si.mk, xs...)
	}
	panic("kind")
}

func (g *Gen) rootWrite(st State, a *Addr, v string) {
	switch a.kind {
	case "var":
		g.set(st, a.key, v)
		g.record(a.key, "")
	case "heap":
		g.set(st, a.key, store(g.get(st, a.key), a.ref, v))
		g.record(a.key, a.ref)
	case "elem":
		e := g.get(st, a.key)
		g.set(st, a.key, store(e, a.ref, store(sel(e, a.ref), a.idx, v)))
		g.record(a.key, a.ref)
	case "obj":
		si := g.sinfo(a.root)
		v = g.define("sv", si.name, v)
		for i := range si.fields {
			k := g.hkey(a.root, i)
			g.set(st, k, store(g.get(st, k), a.ref, app(si.fields[i], v)))
			g.record(k, a.ref)
		}
	}
}

func (g *Gen) pathRead(v string, path []pathEl) string {
	for _, p := range path {
		if p.idx == "" {
			v = app(g.sinfo(p.st).fields[p.fi], v)
		} else {
			v = sel(v, p.idx)
		}
	}
	return v
}

func (g *Gen) pathWrite(root string, path []pathEl, v string) string {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.idx == "" {
		si := g.sinfo(p.st)
		var xs []string
		for i, f := range si.fields {
			if i == p.fi {
				xs = append(xs, g.pathWrite(app(f, root), path[1:], v))
			} else {
				xs = append(xs, app(f, root))
			}
		}
		return app(si.mk, xs...)
	}
	return store(root, p.idx, g.pathWrite(sel(root, p.idx), path[1:], v))
}

func (g *Gen) load(st State, a *Addr) string {
	return g.pathRead(g.rootRead(st, a), a.path)
}

func (g *Gen) storeAt(st State, a *Addr, v string) {
	if len(a.path) == 0 {
		g.rootWrite(st, a, v)
		return
	}
	r := g.rootRead(st, a)
	g.rootWrite(st, a, g.pathWrite(r, a.path, v))
}

// values ------------------------------------------------------------------------

type V struct {
	t    string
	ty   types.Type
	addr *Addr    // interior or local address (pointer values only)
	clo  *closure // statically known function value
	lits []*V     // unmaterialised slice literal
	lit  bool     // lits is valid
	tup  []*V     // tuple
	row  string   // spec only: element row of a slice
	dyn  *V       // interface value with known dynamic contents
	iter *mapIter
}

type closure struct {
	fn   *ssa.Function
	bind []*V
}

type mapIter struct {
	key    string // state key of visited set
	m      *V
	mt     *types.Map
	isStr  bool
	posKey string
}

func (g *Gen) mkV(t string, ty types.Type) *V { return &V{t: t, ty: ty} }

// typeFacts are facts every well-typed Go value satisfies.
func (g *Gen) typeFacts(t string, ty types.Type, alloc string, depth int) []string {
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if lo, hi, _, _, ok := intRange(ty); ok {
			return []string{"(<= " + lo + " " + t + ")", "(<= " + t + " " + hi + ")"}
		}
	case *types.Pointer, *types.Map:
		return []string{"(<= 0 " + t + ")", "(< " + t + " " + alloc + ")"}
	case *types.Slice:
		return sliceFacts(t, alloc)
	case *types.Struct:
		if depth <= 0 {
			return nil
		}
		si := g.sinfo(ty)
		var out []string
		for i, f := range si.fields {
			out = append(out, g.typeFacts(app(f, t), si.fty[i], alloc, depth-1)...)
		}
		return out
	case *types.Interface:
		return []string{"(>= (typeof " + t + ") 0)"}
	default:
		_ = u
	}
	return nil
}

func sliceFacts(t, alloc string) []string {
	return []string{
		"(<= 0 (s.base " + t + "))", "(< (s.base " + t + ") " + alloc + ")",
		"(<= 0 (s.len " + t + "))", "(<= (s.len " + t + ") (s.cap " + t + "))",
		"(=> (= (s.base " + t + ") 0) (= (s.cap " + t + ") 0))"}
}

func (g *Gen) assumeType(guard, t string, ty types.Type, st State) {
	fs := g.typeFacts(t, ty, g.get(st, g.allocKey()), 2)
	if len(fs) > 0 {
		g.assume(guard, and(fs...))
	}
}

func (g *Gen) alloc(st State) string {
	k := g.allocKey()
	r := g.get(st, k)
	g.allocRefs[r] = true
	g.set(st, k, "(+ "+r+" 1)")
	g.record(k, "")
	return r
}

func keysOf(m State) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortStrings(s []string) { sort.Strings(s) }
