package vc

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Unsupported is raised (as a Go panic) when a construct is outside the
// subset the generator models; the unit is then reported as undecided.
type Unsupported struct{ Msg string }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func q(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$') {
			return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
		}
	}
	return s
}

var qual = func(p *types.Package) string { return short(p.Path()) }

func TS(t types.Type) string { return types.TypeString(types.Unalias(t), qual) }

const SliceSort = "Slice"

func (g *Gen) sort(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return "Int"
	case *types.Slice:
		return SliceSort
	case *types.Interface:
		return "Any"
	case *types.Struct:
		return g.structSort(t, u)
	case *types.Array:
		return "(Array Int " + g.sort(u.Elem()) + ")"
	}
	unsup("sort of %s", TS(t))
	return ""
}

type structInfo struct {
	name   string
	fields []string // selector names
	fty    []types.Type
	mk     string
}

func (g *Gen) structSort(t types.Type, u *types.Struct) string {
	return g.sinfo(t).name
}

func (g *Gen) sinfo(t types.Type) *structInfo {
	t = types.Unalias(t)
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("not a struct: %s", TS(t))
	}
	key := TS(t)
	if si, ok := g.structs[key]; ok {
		return si
	}
	si := &structInfo{name: q("S." + key), mk: q("mk." + key)}
	g.structs[key] = si
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		s := q("f." + key + "." + f.Name())
		si.fields = append(si.fields, s)
		si.fty = append(si.fty, f.Type())
		fs = append(fs, "("+s+" "+g.sort(f.Type())+")")
	}
	g.pre = append(g.pre, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", si.name, si.mk, strings.Join(fs, " ")))
	return si
}

func (g *Gen) zero(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch g.sort(t) {
		case "Int":
			return "0"
		case "Bool":
			return "false"
		case "Str":
			return g.strLit("")
		case "Real":
			return "0.0"
		}
	case *types.Slice:
		return "nilSlice"
	case *types.Interface:
		return "nilAny"
	case *types.Struct:
		si := g.sinfo(t)
		if len(si.fields) == 0 {
			return si.mk
		}
		var a []string
		for _, ft := range si.fty {
			a = append(a, g.zero(ft))
		}
		return "(" + si.mk + " " + strings.Join(a, " ") + ")"
	case *types.Array:
		return g.constRow(g.sort(t), g.zero(u.Elem()))
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return "0"
	}
	unsup("zero of %s", TS(t))
	return ""
}

// intRange returns the wrap-around range of a Go integer type; ok is false
// for int/int64, which are treated as mathematical integers, and for non-integers.
func intRange(t types.Type) (lo, hi string, bits int, signed bool, ok bool) {
	b, isb := types.Unalias(t).Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return "0", "255", 8, false, true
	case types.Uint16:
		return "0", "65535", 16, false, true
	case types.Uint32:
		return "0", "4294967295", 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", 64, false, true
	case types.Int8:
		return "(- 128)", "127", 8, true, true
	case types.Int16:
		return "(- 32768)", "32767", 16, true, true
	case types.Int32:
		return "(- 2147483648)", "2147483647", 32, true, true
	}
	return
}

var pow2 = map[int]string{8: "256", 16: "65536", 32: "4294967296", 64: "18446744073709551616"}
var pow2m1 = map[int]string{8: "128", 16: "32768", 32: "2147483648"}

func wrap(t types.Type, term string) string {
	_, _, bits, signed, ok := intRange(t)
	if !ok {
		return term
	}
	if signed {
		return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", term, pow2m1[bits], pow2[bits], pow2m1[bits])
	}
	return fmt.Sprintf("(mod %s %s)", term, pow2[bits])
}

// string literals -----------------------------------------------------------

func (g *Gen) strLit(s string) string {
	if n, ok := g.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str$%d", len(g.strs))
	g.strs[s] = n
	if g.litText == nil {
		g.litText = map[string]string{}
	}
	g.litText[n] = s
	g.pre = append(g.pre, fmt.Sprintf("(declare-const %s Str) ; %q", n, trunc(s, 60)))
	g.pre = append(g.pre, fmt.Sprintf("(assert (= (slen %s) %d))", n, len(s)))
	if len(s) <= 24 {
		for i := 0; i < len(s); i++ {
			g.pre = append(g.pre, fmt.Sprintf("(assert (= (sat %s %d) %d))", n, i, s[i]))
		}
	}
	g.strOrder = append(g.strOrder, n)
	return n
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// type tags -------------------------------------------------------------------

func (g *Gen) tag(t types.Type) int {
	t = types.Unalias(t)
	k := TS(t)
	if n, ok := g.tags[k]; ok {
		return n
	}
	n := len(g.tags) + 1
	g.tags[k] = n
	g.tagTypes = append(g.tagTypes, t)
	return n
}

func (g *Gen) boxes(t types.Type) (box, unbox string) {
	k := TS(t)
	box, unbox = q("box."+k), q("unbox."+k)
	if !g.boxed[k] {
		g.boxed[k] = true
		s := g.sort(t)
		n := g.tag(t)
		g.pre = append(g.pre,
			fmt.Sprintf("(declare-fun %s (%s) Any)", box, s),
			fmt.Sprintf("(declare-fun %s (Any) %s)", unbox, s),
			fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (typeof (%s x)) %d) (= (%s (%s x)) x)) :pattern ((%s x)))))", s, box, n, unbox, box, box),
			fmt.Sprintf("(assert (forall ((a Any)) (! (=> (= (typeof a) %d) (= (%s (%s a)) a)) :pattern ((%s a)))))", n, box, unbox, unbox))
	}
	return
}

func (g *Gen) implPred(it types.Type) string {
	k := TS(it)
	n := q("impl." + k)
	if _, ok := g.impls[k]; !ok {
		g.impls[k] = it
		g.pre = append(g.pre, fmt.Sprintf("(declare-fun %s (Int) Bool)", n))
		g.pre = append(g.pre, fmt.Sprintf("(assert (not (%s 0)))", n))
	}
	return n
}

// facts about which known concrete types implement which interfaces
func (g *Gen) implFacts() []string {
	var out []string
	var ks []string
	for k := range g.impls {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		it := g.impls[k]
		iface := it.Underlying().(*types.Interface)
		for _, t := range g.tagTypes {
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			a := fmt.Sprintf("(%s %d)", q("impl."+k), g.tags[TS(t)])
			if types.Implements(t, iface) {
				out = append(out, "(assert "+a+")")
			} else {
				out = append(out, "(assert (not "+a+"))")
			}
		}
	}
	return out
}

// uninterpreted functions -------------------------------------------------------

func (g *Gen) uf(name string, args []string, res string) string {
	n := q(name)
	if !g.ufs[name] {
		g.ufs[name] = true
		g.pre = append(g.pre, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(args, " "), res))
	}
	return n
}

func app(f string, args ...string) string {
	if len(args) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" {
			continue
		}
		if x == "false" {
			return "false"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}
func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}
func not(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(x, "(not ") {
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}
func imp(a, b string) string {
	if a == "true" || b == "true" {
		return b
	}
	if a == "false" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}
func sel(a, i string) string      { return "(select " + a + " " + i + ")" }
func store(a, i, v string) string { return "(store " + a + " " + i + " " + v + ")" }
func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}
func ite(c, a, b string) string {
	if a == b {
		return a
	}
	if c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

const prelude = `(set-logic ALL)
(declare-sort Str 0)
(declare-sort Any 0)
(declare-datatypes ((Slice 0)) (((mkSlice (s.base Int) (s.off Int) (s.len Int) (s.cap Int)))))
(define-fun nilSlice () Slice (mkSlice 0 0 0 0))
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun slt (Str Str) Bool)
(declare-fun b2s ((Array Int Int) Int Int) Str)
(declare-fun typeof (Any) Int)
(declare-const nilAny Any)
(assert (= (typeof nilAny) 0))
(assert (forall ((a Any)) (! (=> (= (typeof a) 0) (= a nilAny)) :pattern ((typeof a)))))
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (ssub s a b)) (- b a))) :pattern ((ssub s a b)))))
(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 i) (< i (- b a))) (= (sat (ssub s a b) i) (sat s (+ a i)))) :pattern ((sat (ssub s a b) i)))))
(assert (forall ((s Str)) (! (= (ssub s 0 (slen s)) s) :pattern ((ssub s 0 (slen s))))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((r (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (slen (b2s r o n)) n)) :pattern ((b2s r o n)))))
(declare-fun $band (Int Int) Int)
(declare-fun $bor (Int Int) Int)
(declare-fun $bxor (Int Int) Int)
(declare-fun $bandnot (Int Int) Int)
(declare-fun $shl (Int Int) Int)
(declare-fun $shr (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (<= 0 ($band a b)) (<= ($band a b) a) (<= ($band a b) b))) :pattern (($band a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (<= 0 ($shr a b)) (<= ($shr a b) a))) :pattern (($shr a b)))))
`

// constRow is the array that holds z everywhere (z may be no value literal, which
// some solvers do not accept in constant arrays).
func (g *Gen) constRow(srt, z string) string {
	if z == "0" || z == "false" {
		return "((as const " + srt + ") " + z + ")"
	}
	k := srt + "=" + z
	if n, ok := g.rows[k]; ok {
		return n
	}
	if g.rows == nil {
		g.rows = map[string]string{}
	}
	n := q(fmt.Sprintf("zrow.%d", len(g.rows)))
	g.rows[k] = n
	g.symIdx[n] = 0
	g.pre = append(g.pre, "(declare-const "+n+" "+srt+")", "(assert (forall ((i Int)) (! (= (select "+n+" i) "+z+") :pattern ((select "+n+" i)))))")
	return n
}
