package vc

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Options struct {
	Workers   int
	QuickMs   int // per query, incremental
	SlowMs    int // per query, fallback portfolio
	HoudiniMs int
	Verbose   bool
	DumpDir   string
	Cvc5      bool // stated invariants z3 cannot settle are put to cvc5 as well
}

type solver struct {
	g       *Gen
	opt     Options
	vacuous bool
	side    []*Obl
	rounds  int
}

var SolverMillis int64 // accumulated over all units
var SolverQueries int64

func newSolver(g *Gen, opt Options) *solver {
	if opt.Workers == 0 {
		opt.Workers = 8
	}
	if opt.QuickMs == 0 {
		opt.QuickMs = 3000
	}
	if opt.HoudiniMs == 0 {
		opt.HoudiniMs = 1500
	}
	if opt.SlowMs == 0 {
		opt.SlowMs = 8000
	}
	return &solver{g: g, opt: opt}
}

func (s *solver) header() string {
	var sb strings.Builder
	sb.WriteString(prelude)
	for _, p := range s.g.pre {
		sb.WriteString(p)
		sb.WriteByte('\n')
	}
	s.tail(&sb)
	return sb.String()
}

func (s *solver) tail(sb *strings.Builder) {
	if len(s.g.strOrder) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(s.g.strOrder, " ") + "))\n")
	}
	for _, f := range s.g.implFacts() {
		sb.WriteString(f)
		sb.WriteByte('\n')
	}
}

func (s *solver) flags() string {
	var sb strings.Builder
	for _, c := range s.g.Cands {
		if c.Active {
			sb.WriteString("(assert " + c.Flag + ")\n")
		} else {
			sb.WriteString("(assert (not " + c.Flag + "))\n")
		}
	}
	return sb.String()
}

// z3proc is one interactive solver.
type z3proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	wc  io.WriteCloser
	out *bufio.Reader
}

func startZ3(bin string) (*z3proc, error) {
	cmd := exec.Command(bin, "-in", "-smt2", "memory_max_size=3500")
	w, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = io.Discard
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &z3proc{cmd: cmd, in: bufio.NewWriterSize(w, 1<<20), wc: w, out: bufio.NewReader(r)}, nil
}

func (z *z3proc) stop() {
	z.wc.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

// readAnswer reads lines until a check-sat answer.
func (z *z3proc) readAnswer() string {
	for {
		l, err := z.out.ReadString('\n')
		if err != nil {
			return "died"
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return l
		}
	}
}

// runBatch discharges the obligations of idx (indices into g.items) in order.
func (s *solver) runBatch(header, flags string, idx []int, ms int) {
	if len(idx) == 0 {
		return
	}
	z, err := startZ3("z3-new")
	if err != nil {
		for _, i := range idx {
			s.g.items[i].obl.Status = "unknown"
			s.g.items[i].obl.Output = err.Error()
		}
		return
	}
	defer z.stop()
	fmt.Fprintf(z.in, "(set-option :timeout %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", ms)
	z.in.WriteString(header)
	z.in.WriteString(flags)
	pos := 0
	for n, i := range idx {
		for ; pos < i; pos++ {
			if it := s.g.items[pos]; it.obl == nil {
				z.in.WriteString(it.s)
				z.in.WriteByte('\n')
			}
		}
		o := s.g.items[i].obl
		if pastDeadline() {
			o.Status, o.Output, o.LastMs = "unknown", "time budget exhausted", 0
			continue
		}
		t0 := time.Now()
		fmt.Fprintf(z.in, "(push)\n(assert %s)\n(assert (not %s))\n(check-sat)\n(pop)\n", o.Guard, o.Goal)
		if z.in.Flush() != nil {
			for _, j := range idx[n:] {
				s.g.items[j].obl.Status = "unknown"
				s.g.items[j].obl.Output = "solver died"
			}
			return
		}
		a := z.readAnswer()
		d := time.Since(t0).Milliseconds()
		o.Millis += d
		o.LastMs = d
		atomic.AddInt64(&SolverMillis, d)
		atomic.AddInt64(&SolverQueries, 1)
		switch {
		case a == "unsat":
			o.Status = "proved"
			o.Backend = "z3-new"
		default:
			o.Status = "unknown"
			o.Output = a
			if a == "died" {
				for _, j := range idx[n:] {
					s.g.items[j].obl.Status = "unknown"
					s.g.items[j].obl.Output = "solver died"
				}
				return
			}
			if strings.HasPrefix(a, "(error") {
				o.Status = "error"
				// keep draining answers in step
				if a2 := z.readAnswer(); strings.HasPrefix(a2, "(error") || a2 == "died" {
					for _, j := range idx[n:] {
						s.g.items[j].obl.Status = "error"
						s.g.items[j].obl.Output = a
					}
					return
				}
			}
		}
	}
}

func (s *solver) parallel(idx []int, ms int) {
	if len(idx) == 0 {
		return
	}
	header, flags := s.header(), s.flags()
	w := s.opt.Workers
	if w > len(idx) {
		w = len(idx)
	}
	var wg sync.WaitGroup
	parts := make([][]int, w)
	for n, i := range idx {
		parts[n%w] = append(parts[n%w], i)
	}
	for _, p := range parts {
		wg.Add(1)
		go func(p []int) {
			defer wg.Done()
			s.runBatch(header, flags, p, ms)
		}(p)
	}
	wg.Wait()
}

func (s *solver) houdini() {
	if len(s.g.Cands) == 0 {
		return
	}
	first := true
	for round := 0; round < 60; round++ {
		s.rounds++
		var idx []int
		for i, it := range s.g.items {
			if o := it.obl; o != nil && o.Cand != nil && o.Cand.Active && o.Goal != "true" {
				if o.Goal == "false" && o.Guard != "false" && !first {
				}
				idx = append(idx, i)
			}
		}
		first = false
		s.parallel(idx, s.opt.HoudiniMs)
		dropped := 0
		// a stated invariant whose query ran out of time gets a second, longer try
		var retry []int
		for _, i := range idx {
			o := s.g.items[i].obl
			if o.Status != "proved" && !o.Cand.Auto && o.LastMs >= int64(s.opt.HoudiniMs)*7/10 && len(retry) < 24 {
				retry = append(retry, i)
			}
		}
		if len(retry) > 0 {
			s.parallel(retry, s.opt.HoudiniMs*5)
		}
		{
			// incremental solving is weaker than a fresh start: stated invariants get one
			var wg sync.WaitGroup
			sem := make(chan bool, s.opt.Workers)
			for _, i := range idx {
				o := s.g.items[i].obl
				if o.Status == "proved" || o.Cand.Auto || !o.Cand.Active || o.Goal == "false" {
					continue
				}
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					t0 := time.Now()
					sc := s.script(i)
					if a, _ := runSolver([]string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", s.opt.HoudiniMs), "smt.mbqi=false", "smt.auto_config=false"}, sc, s.opt.HoudiniMs+500); a == "unsat" {
						o.Status, o.Backend = "proved", "z3-new"
					} else if s.opt.Cvc5 {
						if a, _ := runSolver([]string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.opt.HoudiniMs*2)}, sc, s.opt.HoudiniMs*2+1000); a == "unsat" {
							o.Status, o.Backend = "proved", "cvc5"
						}
					}
					d := time.Since(t0).Milliseconds()
					atomic.AddInt64(&o.Millis, d)
					atomic.AddInt64(&SolverMillis, d)
					atomic.AddInt64(&SolverQueries, 1)
				}(i)
			}
			wg.Wait()
		}
		for _, i := range idx {
			o := s.g.items[i].obl
			if o.Status != "proved" && o.Cand.Active {
				if re := os.Getenv("VCDROP"); re != "" && strings.Contains(o.Name, re) {
					s.dump(fmt.Sprintf("drop%d-%d-%s", round, i, o.Name), s.script(i))
				}
				o.Cand.Active = false
				dropped++
				if s.opt.Verbose && (!o.Cand.Auto || os.Getenv("VCAUTO") != "") {
					if os.Getenv("VCGOAL") != "" {
						fmt.Fprintln(os.Stderr, "   goal", o.Guard, "=>", o.Goal)
					}
					fmt.Fprintf(os.Stderr, "  drop[%d] %s (%s %s)\n", round, o.Name, o.Status, trunc(o.Output, 80))
				}
			}
		}
		if s.opt.Verbose {
			fmt.Fprintf(os.Stderr, "  houdini round %d: %d queries, %d dropped\n", round, len(idx), dropped)
		}
		if dropped == 0 {
			return
		}
	}
	// not stable: drop everything (sound)
	for _, c := range s.g.Cands {
		c.Active = false
	}
}

func (s *solver) rest(exits []string) {
	var idx []int
	for i, it := range s.g.items {
		if o := it.obl; o != nil && o.Cand == nil && o.Status != "proved" {
			idx = append(idx, i)
		}
	}
	s.parallel(idx, s.opt.QuickMs)
	// fallback portfolio for what is left
	groupOK := map[string]bool{}
	var left []int
	altOK := map[string]bool{}
	for _, i := range idx {
		o := s.g.items[i].obl
		if o.Group != "" {
			k := o.Group + "|" + o.Alt
			if _, ok := altOK[k]; !ok {
				altOK[k] = true
			}
			if o.Status != "proved" {
				altOK[k] = false
			}
		}
	}
	for _, i := range idx {
		o := s.g.items[i].obl
		if o.Group != "" && altOK[o.Group+"|"+o.Alt] {
			groupOK[o.Group] = true
		}
	}
	for _, i := range idx {
		o := s.g.items[i].obl
		if o.Status != "proved" && !(o.Group != "" && groupOK[o.Group]) {
			left = append(left, i)
		}
	}
	if len(left) > 24 {
		// a badly broken unit: do not spend the whole budget on it
		left = left[:24]
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, s.opt.Workers)
	for _, i := range left {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			s.standalone(i)
		}(i)
	}
	// vacuity: some normal exit must not be refutable
	wg.Add(1)
	go func() {
		defer wg.Done()
		if len(exits) == 0 {
			return
		}
		var sb strings.Builder
		sb.WriteString(s.header())
		sb.WriteString(s.flags())
		for _, it := range s.g.items {
			if it.obl == nil {
				sb.WriteString(it.s)
				sb.WriteByte('\n')
			}
		}
		sb.WriteString("(assert " + or(exits...) + ")\n(check-sat)\n")
		a, _ := runSolver([]string{"z3-new", "-in", "-smt2", "-T:4", "smt.mbqi=false", "smt.auto_config=false"}, sb.String(), 5000)
		if a == "unsat" {
			s.vacuous = true
		}
	}()
	for _, so := range s.g.sideObls {
		so := so
		o := &Obl{Name: so.name, Kind: "lemma", Fn: s.g.unit, Text: so.text}
		s.side = append(s.side, o)
		wg.Add(1)
		go func() {
			defer wg.Done()
			var sb strings.Builder
			sb.WriteString(prelude)
			for _, p := range s.g.pre[:so.npre] {
				sb.WriteString(p)
				sb.WriteByte('\n')
			}
			// string literals and tags declared so far only: facts over later ones are not needed
			for _, l := range so.lines {
				sb.WriteString(l)
				sb.WriteByte('\n')
			}
			sb.WriteString("(check-sat)\n")
			t0 := time.Now()
			s.dump(so.name, sb.String())
			a, out := runSolver([]string{"z3-new", "-in", "-smt2", "-T:20", "smt.mbqi=false", "smt.auto_config=false"}, sb.String(), 21000)
			be := "z3-new"
			if a != "unsat" {
				a, out = runSolver([]string{"cvc5", "--lang=smt2", "--tlimit=20000"}, sb.String(), 21000)
				be = "cvc5"
			}
			o.Millis = time.Since(t0).Milliseconds()
			atomic.AddInt64(&SolverMillis, o.Millis)
			atomic.AddInt64(&SolverQueries, 1)
			if a == "unsat" {
				o.Status, o.Backend = "proved", be
			} else {
				o.Status, o.Output = "unknown", out
			}
		}()
	}
	wg.Wait()
}

// splitGoal splits a goal into conjuncts.
func splitGoal(g string) []string {
	op, args := sexp(g)
	switch {
	case op == "and":
		var out []string
		for _, a := range args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case op == "=>" && len(args) == 2:
		var out []string
		for _, a := range splitGoal(args[1]) {
			out = append(out, "(=> "+args[0]+" "+a+")")
		}
		return out
	}
	return []string{g}
}

// sexp splits "(op a b ...)" into its operator and arguments.
func sexp(g string) (string, []string) {
	if len(g) < 2 || g[0] != '(' {
		return "", nil
	}
	var parts []string
	depth, start := 0, -1
	for i := 1; i < len(g)-1; i++ {
		switch c := g[i]; {
		case c == '|':
			if start < 0 {
				start = i
			}
			for i++; i < len(g) && g[i] != '|'; i++ {
			}
		case c == '(':
			if start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
		case (c == ' ' || c == '\n') && depth == 0:
			if start >= 0 {
				parts = append(parts, g[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		parts = append(parts, g[start:len(g)-1])
	}
	if len(parts) == 0 {
		return "", nil
	}
	return parts[0], parts[1:]
}

func (s *solver) script(i int) string {
	o := s.g.items[i].obl
	return s.scriptFor(i, nil, o.Goal)
}

func (s *solver) scriptFor(i int, have []string, goal string) string {
	var sb strings.Builder
	sb.WriteString(s.header())
	sb.WriteString(s.flags())
	for _, it := range s.g.items[:i] {
		if it.obl == nil {
			sb.WriteString(it.s)
			sb.WriteByte('\n')
		}
	}
	o := s.g.items[i].obl
	for _, h := range have {
		fmt.Fprintf(&sb, "(assert %s)\n", h)
	}
	fmt.Fprintf(&sb, "(assert %s)\n(assert (not %s))\n(check-sat)\n", o.Guard, goal)
	return sb.String()
}

func (s *solver) dump(name, script string) {
	if s.opt.DumpDir == "" {
		return
	}
	n := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-' {
			return r
		}
		return '_'
	}, name)
	os.WriteFile(s.opt.DumpDir+"/"+trunc(n, 120)+".smt2", []byte(script), 0o644)
}

func (s *solver) standalone(i int) {
	o := s.g.items[i].obl
	script := s.script(i)
	s.dump(o.Name, script)
	t0 := time.Now()
	defer func() {
		d := time.Since(t0).Milliseconds()
		o.Millis += d
		atomic.AddInt64(&SolverMillis, d)
		atomic.AddInt64(&SolverQueries, 1)
	}()
	sec := s.opt.SlowMs / 1000
	if sec < 1 {
		sec = 1
	}
	T := fmt.Sprintf("-T:%d", sec)
	outs := []string{}
	for _, cfg := range [][]string{
		{"z3-new", "-in", "-smt2", T, "smt.mbqi=false", "smt.auto_config=false"},
		{"z3", "-in", "-smt2", T, "smt.mbqi=false", "smt.auto_config=false"},
		{"z3-new", "-in", "-smt2", T},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.opt.SlowMs)},
	} {
		a, out := runSolver(cfg, script, s.opt.SlowMs+2000)
		if a == "unsat" {
			o.Status, o.Backend = "proved", cfg[0]
			return
		}
		outs = append(outs, cfg[0]+": "+trunc(strings.TrimSpace(out), 200))
		if a == "sat" {
			break
		}
	}
	if parts := splitGoal(o.Goal); len(parts) > 1 {
		var be []string
		ok := true
	parts:
		for k, p := range parts {
			sc := s.scriptFor(i, parts[:k], p)
			for _, cfg := range [][]string{
				{"z3-new", "-in", "-smt2", T, "smt.mbqi=false", "smt.auto_config=false"},
				{"z3", "-in", "-smt2", T, "smt.mbqi=false", "smt.auto_config=false"},
				{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.opt.SlowMs)},
			} {
				if a, _ := runSolver(cfg, sc, s.opt.SlowMs+2000); a == "unsat" {
					be = append(be, cfg[0])
					continue parts
				}
			}
			s.dump(o.Name+"-part", sc)
			outs = append(outs, fmt.Sprintf("conjunct %d of %d undecided: %s", k+1, len(parts), trunc(p, 300)))
			ok = false
			break
		}
		if ok {
			o.Status, o.Backend = "proved", be[0]
			return
		}
	}
	o.Status = "failed"
	o.Output = strings.Join(outs, "; ")
}

// SetDeadline bounds the whole run: queries posed later are answered unknown at once.
func SetDeadline(t time.Time) { atomic.StoreInt64(&deadline, t.UnixNano()) }

var deadline int64

func pastDeadline() bool {
	d := atomic.LoadInt64(&deadline)
	return d != 0 && time.Now().UnixNano() > d
}

func runSolver(cfg []string, script string, ms int) (answer, out string) {
	if pastDeadline() {
		return "unknown", "time budget exhausted"
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, cfg[0], cfg[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	cmd.Run()
	out = b.String()
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown":
			return l, out
		}
	}
	return "timeout", out
}
