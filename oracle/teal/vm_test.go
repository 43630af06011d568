package teal

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// A reference simulator: the executable form of the contracts of the VM.

type mVal struct {
	t   byte   // U, B or . (any)
	id  string // printed form of a value that is only moved, "" when unknown
	n   int    // byte length when known, else -1
	any bool   // the produced type is not determined (any type is right)
}

type mFrame struct {
	ret, p   int
	a, r     int
	prepared bool
}

type mBranch struct {
	line   int
	stack  []mVal
	frames []mFrame
	budget int
	trace  []Op
}

func (b *mBranch) clone() *mBranch {
	return &mBranch{b.line, append([]mVal{}, b.stack...), append([]mFrame{}, b.frames...), b.budget, append([]Op{}, b.trace...)}
}

type mLine struct {
	name string
	args []string // immediates as written
	nop  bool
	lbl  string
}

type mProg struct {
	ls  []mLine
	ver int
	at  map[string]int
}

var mEff = map[string][2]string{}
var mTypes = map[string]byte{}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(specEffects), "\n") {
		p := strings.Split(l, "\t")
		mEff[p[0]] = [2]string{p[1], p[2]}
	}
	for _, l := range strings.Split(strings.TrimSpace(specTypes), "\n") {
		p := strings.Split(l, "\t")
		for _, f := range strings.Fields(p[1]) {
			i := strings.Index(f, ":")
			mTypes[p[0]+" "+f[:i]] = f[i+1]
		}
	}
}

func mParse(src string) *mProg {
	p := &mProg{at: map[string]int{}, ver: 1}
	for i, l := range strings.Split(strings.TrimSuffix(src, "\n"), "\n") {
		f := strings.Fields(l)
		m := mLine{nop: true}
		switch {
		case len(f) == 0 || strings.HasPrefix(f[0], "//"):
		case f[0] == "#pragma":
			p.ver, _ = strconv.Atoi(f[2])
		case strings.HasSuffix(f[0], ":"):
			m.lbl = strings.TrimSuffix(f[0], ":")
			p.at[m.lbl] = i
		default:
			m = mLine{name: f[0], args: f[1:]}
		}
		p.ls = append(p.ls, m)
	}
	return p
}

// settle skips what is no instruction; the end of the program is an exit.
func (p *mProg) settle(l int) int {
	if l < 0 {
		return -1
	}
	for l < len(p.ls) && p.ls[l].nop {
		l++
	}
	if l >= len(p.ls) {
		return -1
	}
	return l
}

func (p *mProg) target(n string) int {
	if l, ok := p.at[n]; ok {
		return p.settle(l)
	}
	return -1
}

var mCosts = map[string]int{"sha3_256": 130, "sha256": 35, "keccak256": 130, "sha512_256": 45, "ed25519verify": 1900, "ecdsa_pk_recover": 2000,
	"divmodw": 20, "ed25519verify_bare": 1900, "expw": 10, "sqrt": 4, "vrf_verify": 5700, "b-": 10, "b*": 20, "b/": 20, "b+": 10, "b%": 20, "b|": 6, "b&": 6,
	"bsqrt": 40, "b^": 6, "b~": 4}

// mCost gives the cost, or -1 when only "at least one" is asked for.
func (p *mProg) mCost(l mLine, b *mBranch) int {
	switch l.name {
	case "ecdsa_verify", "ecdsa_pk_decompress", "ec_add", "ec_map_to", "ec_multi_exp", "ec_pairing_check", "ec_scalar_mul", "ec_subgroup_check", "json_ref":
		return -1
	case "base64_decode":
		if len(b.stack) > 0 {
			if v := b.stack[len(b.stack)-1]; v.n >= 0 {
				return 1 + (v.n+15)/16
			}
		}
		return -1
	case "sha256", "keccak256", "sha512_256":
		if p.ver == 1 {
			return map[string]int{"sha256": 7, "keccak256": 26, "sha512_256": 9}[l.name]
		}
	}
	if c, ok := mCosts[l.name]; ok {
		return c
	}
	return 1
}

type mStop struct{ why string }

func (b *mBranch) pop(t byte) mVal {
	if len(b.stack) == 0 {
		panic(mStop{"too few values"})
	}
	v := b.stack[len(b.stack)-1]
	if v.any && t != '.' {
		panic(mStop{"?"})
	}
	if t != '.' && v.t != '.' && v.t != t {
		panic(mStop{"wrong type"})
	}
	b.stack = b.stack[:len(b.stack)-1]
	return v
}

func (b *mBranch) push(v ...mVal) { b.stack = append(b.stack, v...) }

// exec executes the instruction on b: forked branches, or why it must stop with
// an error ("?" when that is left open).
func (p *mProg) exec(l mLine, b *mBranch) (forks []*mBranch, why string) {
	defer func() {
		if r := recover(); r != nil {
			why = r.(mStop).why
		}
	}()
	num := func(i int) int {
		n, err := strconv.Atoi(l.args[i])
		if err != nil {
			panic(mStop{"?"})
		}
		return n
	}
	next := true
	at := func(i int) *mVal {
		if i < 0 || i >= len(b.stack) {
			panic(mStop{"no such value"})
		}
		return &b.stack[i]
	}
	fork := func(to string) {
		n := b.clone()
		n.line = p.target(to)
		forks = append(forks, n)
	}
	goTo := func(t int) { b.line, next = t, false }
	switch l.name {
	case "err":
		goTo(-1)
	case "return":
		b.pop('U')
		goTo(-1)
	case "bnz", "bz":
		b.pop('U')
		fork(l.args[0])
	case "b":
		goTo(p.target(l.args[0]))
	case "switch":
		b.pop('U')
		for _, a := range l.args {
			fork(a)
		}
	case "match":
		for range l.args {
			b.pop('.')
		}
		b.pop('.')
		for _, a := range l.args {
			fork(a)
		}
	case "callsub":
		b.frames = append(b.frames, mFrame{ret: b.line, p: len(b.stack)})
		goTo(p.target(l.args[0]))
	case "proto":
		if len(b.frames) == 0 {
			panic(mStop{"no frame"})
		}
		f := &b.frames[len(b.frames)-1]
		f.a, f.r, f.prepared = num(0), num(1), true
		if f.a > f.p {
			panic(mStop{"?"})
		}
	case "retsub":
		if len(b.frames) == 0 {
			panic(mStop{"?"})
		}
		f := b.frames[len(b.frames)-1]
		if f.prepared {
			k := len(b.stack) - f.r
			if k < f.p {
				panic(mStop{"too few values"})
			}
			if f.p-f.a < 0 {
				panic(mStop{"?"})
			}
			res := append([]mVal{}, b.stack[k:]...)
			b.stack = append(b.stack[:f.p-f.a], res...)
		}
		b.frames = b.frames[:len(b.frames)-1]
		goTo(p.settle(f.ret + 1))
	case "dup":
		v := b.pop('.')
		b.push(v, v)
	case "dup2":
		y, x := b.pop('.'), b.pop('.')
		b.push(x, y, x, y)
	case "swap":
		y, x := b.pop('.'), b.pop('.')
		b.push(y, x)
	case "popn":
		for i := 0; i < num(0); i++ {
			b.pop('.')
		}
	case "dupn":
		v := b.pop('.')
		for i := 0; i <= num(0); i++ {
			b.push(v)
		}
	case "dig":
		b.push(*at(len(b.stack) - 1 - num(0)))
	case "bury":
		if num(0) == 0 {
			panic(mStop{"bury 0"})
		}
		v := b.pop('.')
		*at(len(b.stack) - num(0)) = v
	case "cover":
		n := num(0)
		at(len(b.stack) - 1 - n)
		k := len(b.stack) - 1
		v := b.stack[k]
		copy(b.stack[k-n+1:], b.stack[k-n:k])
		b.stack[k-n] = v
	case "uncover":
		n := num(0)
		k := len(b.stack) - 1
		v := *at(k - n)
		copy(b.stack[k-n:], b.stack[k-n+1:])
		b.stack[k] = v
	case "frame_dig":
		if len(b.frames) == 0 {
			panic(mStop{"no frame"})
		}
		b.push(*at(b.frames[len(b.frames)-1].p + num(0)))
	case "frame_bury":
		if len(b.frames) == 0 {
			panic(mStop{"no frame"})
		}
		v := b.pop('.')
		*at(b.frames[len(b.frames)-1].p + num(0)) = v
	case "pushints":
		for range l.args {
			b.push(mVal{t: 'U', n: -1})
		}
	case "pushbytess":
		for range l.args {
			b.push(mVal{t: 'B', n: -1})
		}
	case "int":
		v := mVal{t: 'U', n: -1}
		if _, err := strconv.Atoi(l.args[0]); err == nil {
			v.id = "uint64: " + l.args[0]
		}
		b.push(v)
	case "byte", "pushbytes":
		v := mVal{t: 'B', n: -1}
		if a := l.args[0]; strings.HasPrefix(a, "0x") {
			v.n = len(a)/2 - 1
		}
		b.push(v)
	default:
		name := l.name
		switch {
		case name == "replace" && len(l.args) > 0:
			name = "replace2"
		case name == "replace":
			name = "replace3"
		case name == "extract" && len(l.args) == 0:
			name = "extract3"
		case name == "gtxns" && len(l.args) == 2:
			name = "gtxnsa"
		}
		e, ok := mEff[name]
		if !ok {
			panic("no reference effect for " + name)
		}
		for i := len(e[0]) - 1; i >= 0; i-- {
			b.pop(e[0][i])
		}
		for i := range e[1] {
			v := mVal{t: e[1][i], n: -1}
			if v.t == '.' {
				v.any = true
				if k := mFieldOf(name, l.args); k != "" {
					if ty, ok := mTypes[k]; ok {
						v.t, v.any = ty, false
					}
				}
			}
			b.push(v)
		}
	}
	if next {
		b.line = p.settle(b.line + 1)
	}
	return forks, ""
}

func mFieldOf(name string, args []string) string {
	o := sOps[name]
	for i, a := range o.args {
		if i >= len(args) {
			break
		}
		k := strings.TrimSuffix(a.kind, "a")
		if name == "itxn_field" {
			return ""
		}
		switch k {
		case "txn", "global", "asset", "app", "acct", "block", "holding":
			return k + " " + args[i]
		}
	}
	return ""
}

// ---- comparison with the real machine ----

func mType(v VmValue) byte {
	switch v.T {
	case VmTypeUint64:
		return 'U'
	case VmTypeBytes:
		return 'B'
	case VmTypeAny:
		return '.'
	}
	return '?'
}

func mStackDiff(want []mVal, got []VmValue) string {
	if len(want) != len(got) {
		return fmt.Sprintf("height %d", len(got))
	}
	for i, w := range want {
		g := mType(got[i])
		if g != w.t && !(w.any && g != '?') {
			return fmt.Sprintf("value %d has type %c", i, g)
		}
		if w.id != "" && got[i].String() != w.id {
			return fmt.Sprintf("value %d is %s", i, got[i].String())
		}
	}
	return ""
}

func mShow(vs []mVal) string {
	var s []string
	for _, v := range vs {
		s = append(s, string(v.t)+v.id)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func mShowReal(vs []VmValue) string {
	var s []string
	for _, v := range vs {
		s = append(s, string(mType(v))+v.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

// learn takes over the actual types and prints of values the reference leaves open.
func mLearn(want []mVal, got []VmValue) {
	for i := range want {
		if i < len(got) {
			if want[i].any {
				want[i].t, want[i].any = mType(got[i]), false
			}
			if want[i].id == "" {
				want[i].id = got[i].String()
			}
		}
	}
}

func (p *mProg) where(l int) int {
	if l < 0 || l >= len(p.ls) {
		return -1
	}
	return l
}

type mRun struct {
	p    *mProg
	v    *Vm
	mod  map[int]*mBranch
	ids  []int
	bps  map[int]bool
	fail func(string, string, any, any)
	bad  bool
	log  []string
}

func mNew(src string, fail func(string, string, any, any)) *mRun {
	p := mParse(src)
	v := NewVm(Process(src))
	m := &mRun{p: p, v: v, mod: map[int]*mBranch{}, bps: map[int]bool{}, fail: fail}
	b := &mBranch{line: p.settle(0), budget: 700}
	m.mod[v.Branches[0].Id] = b
	m.ids = []int{v.Branches[0].Id}
	return m
}

func (m *mRun) Fail(key, what string, want, got any) {
	if !m.bad {
		m.fail(key, what+"\nafter "+strings.Join(m.log, ", "), want, got)
	}
	m.bad = true
}

func (m *mRun) live() (out []int) {
	for _, id := range m.ids {
		if m.mod[id].line >= 0 {
			out = append(out, id)
		}
	}
	return
}

func (m *mRun) real(id int) *VmBranch {
	for _, b := range m.v.Branches {
		if b.Id == id {
			return b
		}
	}
	return nil
}

// same compares one real branch with its reference; mask: 1 stack and position
// (C11), 2 frames, budget, trace (C12).
func (m *mRun) same(id int, who string) bool {
	b, w := m.real(id), m.mod[id]
	if b == nil {
		m.Fail("lost", who+" disappeared", id, "none")
		return false
	}
	if d := mStackDiff(w.stack, b.Stack.Items); d != "" {
		m.Fail("stack", who+": stack: "+d, mShow(w.stack), mShowReal(b.Stack.Items))
		return false
	}
	mLearn(w.stack, b.Stack.Items)
	if m.p.where(b.Line) != w.line {
		m.Fail("line", who+": position", w.line, b.Line)
		return false
	}
	if len(b.Frames) != len(w.frames) {
		m.Fail("frames", who+": call frames", len(w.frames), len(b.Frames))
		return false
	}
	for i, f := range w.frames {
		g := b.Frames[i]
		if g.Return != f.ret || int(g.NumArgs) != f.a || int(g.NumReturns) != f.r {
			m.Fail("frames", who+": call frame", f, g)
			return false
		}
	}
	if b.Budget != w.budget {
		m.Fail("budget", who+": budget", w.budget, b.Budget)
		return false
	}
	if len(b.Trace) != len(w.trace) {
		m.Fail("trace", who+": trace length", len(w.trace), len(b.Trace))
		return false
	}
	for i := range w.trace {
		if b.Trace[i] != w.trace[i] {
			m.Fail("trace", who+": trace", w.trace[i], b.Trace[i])
			return false
		}
	}
	return true
}

// step steps the real machine once and the reference along with it.
func (m *mRun) step(expect int) {
	live := m.live()
	m.log = append(m.log, "step")
	m.v.Step()
	m.after(live, expect)
}

func (m *mRun) after(live []int, expect int) {
	if m.bad {
		return
	}
	if len(live) == 0 {
		if len(m.v.Branches) != len(m.ids) {
			m.Fail("dead", "a step without a running branch makes branches", len(m.ids), len(m.v.Branches))
		}
		for _, id := range m.ids {
			m.same(id, fmt.Sprint("exited branch ", id))
		}
		return
	}
	// which one was stepped
	which := -1
	for _, id := range live {
		b, w := m.real(id), m.mod[id]
		if b == nil {
			m.Fail("lost", "branch disappeared", id, "none")
			return
		}
		if len(b.Trace) != len(w.trace) || m.p.where(b.Line) != w.line || b.Budget != w.budget {
			which = id
			break
		}
	}
	if which < 0 && m.v.Error != nil {
		for _, id := range m.ids {
			if !m.same(id, fmt.Sprint("branch ", id, " after an error")) {
				return
			}
		}
		m.bad = true // nothing was charged: the cost itself stopped it
		return
	}
	if which < 0 {
		m.Fail("stuck", "running branches but none was stepped", live, "none")
		return
	}
	if expect >= 0 && which != expect {
		m.Fail("switch", "the selected branch is the one that is stepped", expect, which)
		return
	}
	w := m.mod[which]
	l := m.p.ls[w.line]
	m.log[len(m.log)-1] = fmt.Sprintf("#%d:%s", which, l.name)
	op := m.v.Process.Listing[w.line]
	cost := m.p.mCost(l, w)
	rb := m.real(which)
	if cost < 0 {
		cost = w.budget - rb.Budget
		if cost <= 0 {
			if m.p.where(rb.Line) == -1 && len(rb.Trace) == len(w.trace) {
				cost = w.budget + 1 // could not pay
			} else {
				m.Fail("budget", "an instruction costs at least one", ">= 1", cost)
				return
			}
		}
	}
	if rb.Budget < 0 {
		m.Fail("budget", "the budget never becomes negative", ">= 0", rb.Budget)
		return
	}
	arrivals := map[int][]int{}
	var forks []*mBranch
	if cost > w.budget {
		w.line = -1
		if m.v.Error != nil {
			m.Fail("pay", "a branch that cannot pay stops", "no error", m.v.Error)
			return
		}
	} else {
		w.budget -= cost
		w.trace = append(w.trace, op)
		n := w.clone()
		var why string
		forks, why = m.p.exec(l, n)
		if why == "?" || why != "" && m.v.Error != nil {
			for _, id := range m.ids {
				if id != which && !m.same(id, fmt.Sprint("branch ", id, " while another failed")) {
					return
				}
			}
			if b := rb.Budget; why != "?" && b != w.budget {
				m.Fail("budget", "budget", w.budget, b)
			}
			m.bad = true // the run ends here
			return
		}
		if why != "" {
			m.Fail("noerror", "an instruction that cannot be executed ("+why+") stops with an error", why, mShowReal(rb.Stack.Items))
			return
		}
		if m.v.Error != nil {
			m.Fail("error", "an instruction that finds its operands executes", "stack before "+mShow(w.stack), m.v.Error)
			return
		}
		m.mod[which] = n
		if n.line >= 0 && m.bps[n.line] {
			arrivals[which] = append(arrivals[which], n.line)
		}
	}
	for _, id := range m.ids {
		who := fmt.Sprint("stepped branch ", id)
		if id != which {
			who = fmt.Sprint("other branch ", id)
		}
		if !m.same(id, who) {
			return
		}
	}
	if len(m.v.Branches) != len(m.ids)+len(forks) {
		m.Fail("forks", "branches", len(m.ids)+len(forks), len(m.v.Branches))
		return
	}
	known := map[int]bool{}
	for _, id := range m.ids {
		known[id] = true
	}
	k := 0
	for _, b := range m.v.Branches {
		if known[b.Id] {
			continue
		}
		known[b.Id] = true
		m.mod[b.Id] = forks[k]
		m.ids = append(m.ids, b.Id)
		if !m.same(b.Id, fmt.Sprint("forked branch ", b.Id)) {
			return
		}
		if l := forks[k].line; l >= 0 && m.bps[l] {
			arrivals[b.Id] = append(arrivals[b.Id], l)
		}
		k++
	}
	if k != len(forks) {
		m.Fail("forks", "forked branches have ids of their own", len(forks), k)
		return
	}
	if fmt.Sprint(mFlat(arrivals)) != fmt.Sprint(mFlat(m.v.Triggered)) {
		m.Fail("bp-triggered", "arrivals at breakpoints", mFlat(arrivals), mFlat(m.v.Triggered))
	}
}

func mFlat(a map[int][]int) (out []string) {
	for id, ls := range a {
		for _, l := range ls {
			out = append(out, fmt.Sprintf("%d@%d", id, l))
		}
	}
	sort.Strings(out)
	return
}

func (m *mRun) setBreakpoints(lns []int) {
	m.log = append(m.log, fmt.Sprint("break ", lns))
	want := map[int]bool{}
	for _, l := range lns {
		if l >= 0 && l < len(m.p.ls) && !m.p.ls[l].nop {
			want[l] = true
		}
	}
	got := m.v.SetBreakpoints(lns)
	for l := -3; l < len(m.p.ls)+4; l++ {
		if got[l] != want[l] {
			m.Fail("bp-verified", fmt.Sprint("breakpoint on line ", l, " verified"), want[l], got[l])
			return
		}
	}
	m.bps = want
}

var mNames = []string{"x", "y", "z"}

// gVm makes a program that has every label once.
func gVm(o *vOracle, n int, ver string) string {
	ls := []string{"#pragma version " + ver}
	for i := 0; i < n; i++ {
		nm := mNames[o.R.Intn(3)]
		switch o.R.Intn(14) {
		case 0, 1, 2, 3:
			ls = append(ls, fmt.Sprintf("int %d", o.R.Intn(9)))
		case 4:
			ls = append(ls, o.pick("byte", "pushbytes")+" "+o.pick("0x01", "0x0203", "0x00112233445566778899aabbccddeeff00"))
		case 5:
			ls = append(ls, o.pick("", "// c", ""))
		case 6:
			ls = append(ls, "int 1", o.pick("bz ", "bnz ")+nm)
		case 7:
			ls = append(ls, o.pick("b ", "callsub ")+nm)
		case 8:
			ls = append(ls, "int 0", "int 0", "int 0", o.pick("switch", "match")+o.pick(" x", " x y", " z y x", ""))
		case 9:
			ls = append(ls, o.pick("retsub", "return", "err", "retsub", "retsub"))
		case 10:
			ls = append(ls, fmt.Sprintf("proto %d %d", o.R.Intn(3), o.R.Intn(3)))
		case 11:
			ls = append(ls, fmt.Sprintf("%s %d", o.pick("frame_dig", "frame_bury"), o.R.Intn(5)-2))
		case 12:
			ls = append(ls, o.pick("dup", "dup2", "swap", "pop", "sha256", map[bool]string{true: "len", false: "base64_decode StdEncoding"}[ver == "1"], "+", "store 1", "load 1", "itob", "len", "concat", "keccak256"))
		default:
			ls = append(ls, fmt.Sprintf("%s %d", o.pick("dig", "bury", "cover", "uncover", "popn", "dupn"), o.R.Intn(4)))
		}
	}
	perm := o.R.Perm(len(ls))
	for k, nm := range mNames {
		at := 1
		if len(perm) > 0 {
			at = 1 + perm[k%len(perm)]
		}
		if at > len(ls) {
			at = len(ls)
		}
		if o.R.Intn(12) == 0 {
			at = len(ls)
		}
		ls = append(ls[:at], append([]string{nm + ":"}, ls[at:]...)...)
	}
	return strings.Join(ls, "\n")
}

func TestOracleC11(t *testing.T) {
	o := vNew(t, "one instruction of every opcode on concrete stacks, against the reference stack effects; whole programs stepped against a reference simulator")
	pool := func(src string) VmValue {
		v := NewVm(Process("#pragma version 8\n" + src))
		v.Step()
		return v.Branches[0].Stack.Items[0]
	}
	var us, bs []VmValue
	for i := 0; i < 12; i++ {
		us = append(us, pool(fmt.Sprintf("int %d", 100+i)))
		bs = append(bs, pool(fmt.Sprintf("byte 0x%02x%02x", 16+i, i)))
	}
	mk := func(t byte, i int) (VmValue, mVal) {
		var v VmValue
		switch t {
		case 'U':
			v = us[i%12]
		case 'B':
			v = bs[i%12]
		default:
			v = us[i%12]
			v.T = VmTypeAny
		}
		return v, mVal{t: t, id: v.String(), n: -1}
	}
	for _, name := range sOpNames {
		op := sOps[name]
		for rep := 0; rep < o.N(60); rep++ {
			args := sLine(o, op, o.R.Intn(2) == 0)[1:]
			for i, a := range op.args {
				if i < len(args) && a.kind == "label" {
					for k := i; k < len(args); k++ {
						args[k] = mNames[o.R.Intn(3)]
					}
				}
				if a.kind == "bytes" {
					for k := i; k < len(args); k++ {
						args[k] = o.pick("0x01", "0x0a0b", "0x")
					}
				}
				if i < len(args) && a.kind == "u8" && !a.arr && o.R.Intn(8) == 0 {
					args[i] = o.pick("255", "127", "128", "11", "12")
				}
			}
			line := strings.Join(append([]string{name}, args...), " ")
			src := "#pragma version 10\n" + line + "\n" + o.pick("", "x:\n", "y:\nint 1\n") + "int 5\n\nz:\n" + o.pick("int 7", "")
			for _, nm := range mNames {
				if !strings.Contains(src, nm+":") {
					src += "\n" + nm + ":\nint 3"
				}
			}
			res := Process(src)
			if rOpType(res.Listing[1]) == "" {
				continue
			}
			want := ""
			if e, ok := mEff[name]; ok {
				want = e[0]
			}
			h := o.R.Intn(9)
			if o.R.Intn(12) == 0 {
				h = o.pick2(130, 256, 300, 128)
			}
			var kinds []byte
			for i := 0; i < h; i++ {
				kinds = append(kinds, "UB."[o.R.Intn(3)])
			}
			for i := range want { // mostly what the opcode wants on top
				if want[i] != '.' && len(kinds) > 0 && o.R.Intn(8) > 0 {
					at := len(kinds) - len(want) + i
					if at >= 0 {
						kinds[at] = want[i]
						if o.R.Intn(6) == 0 {
							kinds[at] = '.'
						}
					}
				}
			}
			in := line + " on " + string(kinds)
			if len(kinds) > 20 {
				in = fmt.Sprintf("%s on %d values %s...", line, len(kinds), kinds[:8])
			}
			nf := o.R.Intn(3)
			var frames []string
			for i := 0; i < nf; i++ {
				frames = append(frames, o.pick("callsub", "callsub+proto 1 1", "callsub+proto 0 2", "callsub+proto 2 0"))
			}
			in += fmt.Sprint(" frames ", frames, " in ", strconv.Quote(src))
			o.Case(in, true, func(fail func(string, string, any, any)) {
				m := mNew(src, fail)
				b, w := m.v.Branches[0], m.mod[m.ids[0]]
				b.Budget, w.budget = 100000, 100000
				fr := 0
				for i, k := range kinds {
					for fr < nf && i == (fr+1)*len(kinds)/(nf+1) {
						(&CallSubExpr{Label: &LabelExpr{Name: "x"}}).Execute(b)
						b.Line = 1
						f := mFrame{ret: 1, p: len(w.stack)}
						if strings.Contains(frames[fr], "proto") {
							var a, r int
							fmt.Sscanf(frames[fr], "callsub+proto %d %d", &a, &r)
							(&ProtoExpr{Args: uint8(a), Results: uint8(r)}).Execute(b)
							b.Line = 1
							f.a, f.r, f.prepared = a, r, true
						}
						w.frames = append(w.frames, f)
						fr++
					}
					v, mv := mk(k, i)
					b.Stack.Items = append(b.Stack.Items, v)
					w.stack = append(w.stack, mv)
				}
				m.step(-1)
			})
		}
	}
	mPrograms(o, o.N(6000), 0)
	o.Done()
}

func (o *vOracle) pick2(a ...int) int { return a[o.R.Intn(len(a))] }

// mPrograms: mode 0 plain, 1 with branch switching, 2 with breakpoints.
func mPrograms(o *vOracle, n, mode int) {
	for i := 0; i < n && !o.Expired(); i++ {
		src := gVm(o, o.R.Intn(14), o.pick("8", "8", "8", "1"))
		type act struct {
			kind, arg int
			lns       []int
		}
		var acts []act
		for k := 0; k < 24; k++ {
			a := act{}
			if mode >= 1 && o.R.Intn(2) == 0 {
				a.kind, a.arg = 1, o.R.Intn(8)
			}
			if mode == 2 && o.R.Intn(4) == 0 {
				a.kind = 2
				for j := o.R.Intn(5); j > 0; j-- {
					a.lns = append(a.lns, o.R.Intn(24)-3)
				}
			}
			acts = append(acts, a)
		}
		start := 700
		if o.R.Intn(3) == 0 {
			start = o.R.Intn(40)
		}
		o.Case(fmt.Sprintf("budget %d, actions %v, program %q", start, acts, src), true, func(fail func(string, string, any, any)) {
			m := mNew(src, fail)
			m.v.Branches[0].Budget, m.mod[m.ids[0]].budget = start, start
			for _, a := range acts {
				if m.bad {
					return
				}
				switch a.kind {
				case 0:
					m.step(-1)
				case 1:
					id := m.ids[a.arg%len(m.ids)]
					m.log = append(m.log, fmt.Sprint("switch ", id))
					m.v.Switch(id)
					exp := -1
					if m.mod[id].line >= 0 {
						exp = id
					}
					m.step(exp)
				case 2:
					m.setBreakpoints(a.lns)
					m.step(-1)
				}
				if len(m.ids) > 40 {
					return
				}
			}
		})
	}
}

func TestOracleC12(t *testing.T) {
	o := vNew(t, "random branching programs with calls, stepped in a random order of branches; after every step all branches are compared with a reference simulator")
	mPrograms(o, o.N(12000), 1)
	o.Done()
}

func TestOracleC13(t *testing.T) {
	o := vNew(t, "breakpoint requests on random lines (negative, past the end, repeated, blank, labels), then stepping and running against a reference simulator")
	mPrograms(o, o.N(8000), 2)
	for i := 0; i < o.N(6000) && !o.Expired(); i++ {
		src := gVm(o, o.R.Intn(14), "8")
		var sets [][]int
		for k := 1 + o.R.Intn(3); k > 0; k-- {
			var lns []int
			for j := o.R.Intn(5); j > 0; j-- {
				lns = append(lns, o.R.Intn(26)-3)
			}
			sets = append(sets, lns)
		}
		start := o.pick2(8, 12, 16)
		if !strings.Contains(src, "bz") && !strings.Contains(src, "bnz") && !strings.Contains(src, "switch") && !strings.Contains(src, "match") {
			start = 700
		}
		o.Case(fmt.Sprintf("budget %d, run with breakpoints %v on %q", start, sets, src), true, func(fail func(string, string, any, any)) {
			// The steps of Run are those of Step: a second machine stepped until
			// an arrival, an error or the end of all branches must agree with Run.
			a, b := mNew(src, fail), mNew(src, fail)
			a.v.Branches[0].Budget, b.v.Branches[0].Budget = start, start
			b.mod[b.ids[0]].budget = start
			for _, lns := range sets {
				a.setBreakpoints(lns)
				b.setBreakpoints(lns)
				a.v.Run()
				for len(b.live()) > 0 && !b.bad {
					b.step(-1)
					if len(b.v.Triggered) > 0 || b.v.Error != nil {
						break
					}
					if len(b.ids) > 60 {
						return
					}
				}
				if b.bad && b.v.Error == nil {
					return // the reference leaves this run open, or has reported it
				}
				if (a.v.Error != nil) != (b.v.Error != nil) {
					fail("run-error", "run ends with an error", b.v.Error, a.v.Error)
				}
				if b.v.Error != nil {
					return
				}
				if len(b.live()) == 0 && len(b.v.Triggered) == 0 {
					for _, x := range a.v.Branches {
						if b.p.where(x.Line) != -1 {
							fail("run-early", "run stops with a branch still running", "an arrival, an error or all exited", x.Line)
							return
						}
					}
					return
				}
				if fmt.Sprint(mFlat(a.v.Triggered)) != fmt.Sprint(mFlat(b.v.Triggered)) {
					fail("run-stop", "arrivals run stops at", mFlat(b.v.Triggered), mFlat(a.v.Triggered))
					return
				}
				for _, id := range b.ids {
					x, y := a.real(id), b.real(id)
					if x == nil || b.p.where(x.Line) != b.p.where(y.Line) || x.Budget != y.Budget {
						fail("run-state", "run stops at the first arrival", fmt.Sprint(id, " at ", y.Line), x)
						return
					}
				}
			}
		})
	}
	o.Done()
}
