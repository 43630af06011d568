package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/vc"
)

// CheckCfg is one entry of checks.json.
type CheckCfg struct {
	Property  string   `json:"property"`
	Level     string   `json:"level"`
	Technique string   `json:"technique"`
	Note      string   `json:"note"`
	Oracle    []string `json:"oracle"` // "<oracle dir>:<repo dir>:<test name>"
	Bounded   []string `json:"bounded"`
	Assume    []string `json:"assumptions"`
}

// Finding is one entry of known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`    // oracle failure key or obligation name
	Status   string `json:"status"` // "known" or "fixed: ..."
	What     string `json:"what"`
}

type oracleFail struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Input  string `json:"input"`
	Expect string `json:"expect"`
	Got    string `json:"got"`
}

type oracleOut struct {
	Evaluations int          `json:"evaluations"`
	Distinct    int          `json:"distinct"`
	Rule        string       `json:"rule"`
	Samples     []string     `json:"samples"`
	Failures    []oracleFail `json:"failures"`
}

type oracleRun struct {
	Test   string
	Out    *oracleOut
	Err    string // could not be built or gave no answer
	Wall   float64
	Output string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	e, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(e))
	}
	return "/verif"
}

func runOracle(vdir, repo, spec, tier string, seed int, trace bool) *oracleRun {
	parts := strings.SplitN(spec, ":", 3)
	r := &oracleRun{Test: parts[2]}
	t0 := time.Now()
	defer func() { r.Wall = time.Since(t0).Seconds() }()
	tmp, err := os.MkdirTemp("", "verif-oracle-")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	files, _ := filepath.Glob(filepath.Join(vdir, "oracle", parts[0], "*_test.go"))
	pkgdir := filepath.Join(repo, parts[1])
	rep := map[string]string{}
	for _, f := range files {
		rep[filepath.Join(pkgdir, "zz_verif_"+filepath.Base(f))] = f
	}
	// the shared runtime goes into every package
	common, _ := filepath.Glob(filepath.Join(vdir, "oracle", "common", "*.go"))
	for _, f := range common {
		b, err := os.ReadFile(f)
		if err != nil {
			r.Err = err.Error()
			return r
		}
		pkg := packageName(pkgdir)
		b = bytes.Replace(b, []byte("package common"), []byte("package "+pkg), 1)
		nf := filepath.Join(tmp, strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")
		os.WriteFile(nf, b, 0o644)
		rep[filepath.Join(pkgdir, "zz_verif_"+filepath.Base(nf))] = nf
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(tmp, "o.test")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	build := exec.CommandContext(ctx, "go", "test", "-vet=off", "-c", "-overlay", ovf, "-o", bin, ".")
	build.Dir = pkgdir
	if out, err := build.CombinedOutput(); err != nil {
		r.Err = "oracle does not build: " + tail(string(out), 1500)
		return r
	}
	limit := 200 * time.Second
	if tier == "thorough" {
		limit = 3000 * time.Second
	}
	ctx2, cancel2 := context.WithTimeout(context.Background(), limit)
	defer cancel2()
	outf := filepath.Join(tmp, "out.json")
	cmd := exec.CommandContext(ctx2, bin, "-test.run", "^"+parts[2]+"$", "-test.timeout", "0", "-test.count", "1")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "ORACLE_OUT="+outf, "ORACLE_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "ORACLE_REPO="+repo, "GOMEMLIMIT=4GiB")
	tf := filepath.Join(tmp, "trace")
	if trace {
		cmd.Env = append(cmd.Env, "ORACLE_TRACE="+tf)
	}
	out, rerr := cmd.CombinedOutput()
	r.Output = tail(string(out), 4000)
	b, err := os.ReadFile(outf)
	if err != nil {
		if !trace {
			return runOracle(vdir, repo, spec, tier, seed, true)
		}
		last, _ := os.ReadFile(tf)
		if len(bytes.TrimRight(last, "\x00")) == 0 {
			r.Err = "oracle failed outside the code under test: " + tail(string(out), 1500)
			return r
		}
		r.Out = &oracleOut{Failures: []oracleFail{{Key: "crash", What: fmt.Sprintf("the code under test killed the process (%v)", rerr), Input: string(bytes.TrimRight(last, "\x00")), Got: tail(string(out), 3000)}}}
		return r
	}
	r.Out = &oracleOut{}
	if err := json.Unmarshal(b, r.Out); err != nil {
		r.Err = "oracle output: " + err.Error()
		r.Out = nil
	}
	return r
}

func packageName(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1]
			}
		}
	}
	return "main"
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func check(prop, tier, repo string) int {
	t0 := time.Now()
	vdir := verifDir()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var cfgs []CheckCfg
	if b, err := os.ReadFile(filepath.Join(vdir, "checks.json")); err != nil || json.Unmarshal(b, &cfgs) != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	var cfg *CheckCfg
	for i := range cfgs {
		if cfgs[i].Property == prop {
			cfg = &cfgs[i]
		}
	}
	if cfg == nil {
		fmt.Println("no check for", prop)
		return 2
	}
	var findings []Finding
	if b, err := os.ReadFile(filepath.Join(vdir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &findings); err != nil {
			fmt.Println("known_findings.json:", err)
			return 2
		}
	}
	known := map[string]*Finding{}
	for i := range findings {
		if f := &findings[i]; f.Property == prop && f.Status == "known" {
			known[f.Key] = f
		}
	}

	// replay engine: executable form of the contracts on concrete inputs
	var oracles []*oracleRun
	odone := make(chan bool)
	go func() {
		for _, o := range cfg.Oracle {
			oracles = append(oracles, runOracle(vdir, repo, o, tier, seed, false))
		}
		odone <- true
	}()

	// deductive part
	var units []*vc.UnitResult
	var fatal string
	p, err := vc.Load(repo, "./...")
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	cs, err := vc.LoadContracts(filepath.Join(vdir, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	opt := vc.Options{}
	budget := 420 * time.Second
	if tier == "thorough" {
		opt.SlowMs = 60000
		opt.QuickMs = 20000
		budget = 3600 * time.Second
	}
	keys := cs.UnitsFor(p, prop)
	sort.Strings(keys)
	ded0 := time.Now()
	<-odone // the oracle is short; then the solvers have the machine
	oracleFound := false
	for _, o := range oracles {
		if o.Out != nil {
			for _, f := range o.Out.Failures {
				if known[f.Key] == nil {
					oracleFound = true
				}
			}
		}
	}
	if oracleFound && tier != "thorough" {
		// a failing input is in hand: the solver run only names the obligation
		opt.SlowMs = 2000
		budget = 120 * time.Second
	}
	vc.SetDeadline(ded0.Add(budget))
	// several units at a time: each leaves cores idle between its queries
	units = make([]*vc.UnitResult, len(keys))
	var wg sync.WaitGroup
	var umu sync.Mutex
	late := false
	next := make(chan int)
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if time.Since(ded0) > budget {
					continue
				}
				u := vc.Verify(p, cs, keys[i], opt)
				umu.Lock()
				if !late {
					units[i] = u
				}
				umu.Unlock()
			}
		}()
	}
	go func() {
		for _, i := range costly(keys) {
			next <- i
		}
		close(next)
	}()
	first := make(chan bool)
	go func() { wg.Wait(); close(first) }()
	select {
	case <-first:
	case <-time.After(time.Until(ded0.Add(budget + 90*time.Second))):
		fmt.Println("time budget exhausted")
	}
	umu.Lock()
	late = true
	umu.Unlock()
	for i, k := range keys {
		if units[i] == nil {
			units[i] = &vc.UnitResult{Key: k, Undecided: "time budget exhausted"}
		}
	}
	for i, k := range keys {
		u := units[i]
		if (len(u.Failed) > 0 || u.Vacuous) && !oracleFound && time.Since(ded0) < budget {
			// a solver that ran out of time is not a refutation: once more with
			// more of it, and the whole machine
			if os.Getenv("VCTRACE") != "" {
				for _, o := range u.Failed {
					fmt.Println("retry:", k, o)
				}
				fmt.Println("retry:", k, len(u.Failed), u.Vacuous, time.Since(ded0))
			}
			slow := opt
			slow.HoudiniMs, slow.QuickMs, slow.SlowMs = 8000, 20000, 30000
			if tier == "thorough" {
				slow.SlowMs = 120000
			}
			if u2 := vc.Verify(p, cs, k, slow); len(u2.Failed) < len(u.Failed) || (u.Vacuous && !u2.Vacuous && len(u2.Failed) == 0) {
				units[i] = u2
			}
		}
	}
	_ = fatal

	// verdict
	type viol struct {
		text  string
		input bool
	}
	var viols []viol
	seen := map[string]bool{}
	nviol := 0
	for _, o := range oracles {
		if o.Out == nil {
			continue
		}
		for _, f := range o.Out.Failures {
			if kf := known[f.Key]; kf != nil {
				if !seen[f.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.What)
				}
				seen[f.Key] = true
				continue
			}
			nviol++
			if len(viols) < 5 {
				viols = append(viols, viol{fmt.Sprintf("test %s\nkey: %s\nwhat: %s\ninput: %s\nexpected: %s\ngot: %s\n", o.Test, f.Key, f.What, f.Input, f.Expect, f.Got), true})
			}
		}
	}
	obls, disch := 0, 0
	byBackend := map[string]int{}
	byKind := map[string]int{}
	assumed := map[string]bool{}
	for _, a := range cfg.Assume {
		assumed[a] = true
	}
	var under, inlined []string
	relied := map[string]bool{}
	inl := map[string]bool{}
	var proofFails []string
	for _, u := range units {
		under = append(under, fmt.Sprintf("%s (%d obligations, %d ms)", u.Key, len(u.Obls), u.Millis))
		for _, a := range u.Assumed {
			assumed[a] = true
		}
		for _, a := range u.Used {
			relied[a] = true
		}
		for _, a := range u.Inlined {
			inl[a] = true
		}
		if u.Undecided != "" {
			obls++
			kk := "obl:" + u.Key + ":decidable"
			if kf := known[kk]; kf != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.What)
				continue
			}
			proofFails = append(proofFails, fmt.Sprintf("unit %s: obligations could not be generated: %s", u.Key, u.Undecided))
			continue
		}
		if u.Vacuous {
			obls++
			proofFails = append(proofFails, fmt.Sprintf("unit %s: vacuous (no normal exit is satisfiable)", u.Key))
		}
		if len(u.Obls) == 0 {
			proofFails = append(proofFails, fmt.Sprintf("unit %s: no obligations", u.Key))
		}
		for _, o := range u.Obls {
			obls++
			byKind[o.Kind]++
			if o.Status == "proved" {
				disch++
				byBackend[o.Backend]++
			}
		}
		for _, o := range u.Failed {
			if kf := known["obl:"+o.Name]; kf != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.What)
				continue
			}
			proofFails = append(proofFails, fmt.Sprintf("obligation %s\n  at %s\n  clause: %s\n  solver: %s", o.Name, o.Pos, o.Text, o.Output))
		}
	}
	for a := range inl {
		inlined = append(inlined, a)
	}
	sort.Strings(inlined)
	replay := filepath.Join(vdir, "evidence", prop+".replay.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	rc := 0
	if len(viols) > 0 || len(proofFails) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		for _, v := range viols {
			sb.WriteString("FAILING INPUT (replayed on the code of /repo)\n" + v.text + "\n")
		}
		for _, f := range proofFails {
			sb.WriteString("FAILED OBLIGATION\n" + f + "\n\n")
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(tail(sb.String(), 6000))
		rc = 1
		if len(viols) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	}
	for _, f := range findings {
		_ = f
	}

	// evidence
	evals, distinct := 0, 0
	var rules, samples []string
	var onotes []string
	for _, o := range oracles {
		if o.Out == nil {
			onotes = append(onotes, o.Test+": "+o.Err)
			continue
		}
		evals += o.Out.Evaluations
		distinct += o.Out.Distinct
		rules = append(rules, o.Test+": "+o.Out.Rule)
		samples = append(samples, o.Out.Samples...)
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	cov := map[string]any{
		"obligations":               obls,
		"discharged":                disch,
		"checker_cmd":               "bash run.sh " + prop + " " + tier,
		"trusted_base":              []string{"go/ssa (x/tools v0.52.0) lowering of /repo", "int and int64 arithmetic is mathematical (no signed 64-bit overflow); all narrower and unsigned types wrap", "the obligation generator in /verif/vc", "z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2 (portfolio)"},
		"functions_under_contract":  under,
		"callee_contracts_used":     sortedSet(relied),
		"functions_inlined":         inlined,
		"obligations_by_kind":       byKind,
		"discharged_by_backend":     byBackend,
		"solver_ms":                 vc.SolverMillis,
		"solver_queries":            vc.SolverQueries,
		"bounded_parts_not_proved":  cfg.Bounded,
		"replay_oracle_evaluations": evals,
		"evaluations":               evals,
		"distinct_nontrivial":       distinct,
		"rule":                      strings.Join(rules, " | "),
		"samples":                   samples,
		"known_findings_seen":       len(seen),
		"explanation":               cfg.Note,
	}
	if evals == 0 {
		delete(cov, "evaluations")
		delete(cov, "distinct_nontrivial")
		delete(cov, "rule")
		delete(cov, "samples")
	}
	if len(onotes) > 0 {
		cov["oracle_not_run"] = onotes
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": cfg.Level,
		"coverage": cov, "assumptions": sortedSet(assumed),
		"wall_s":     time.Since(t0).Seconds(),
		"violations": nviol + len(proofFails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(vdir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d/%d obligations discharged over %d functions, %d oracle evaluations, %.1fs\n", prop, disch, obls, len(units), evals, time.Since(t0).Seconds())
	for _, n := range onotes {
		fmt.Println("note:", n)
	}
	return rc
}

func sortedSet(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// costly orders the units so that those that take long start first.
func costly(keys []string) []int {
	w := map[string]int{"teal.Process'main": 9, "teal.(*Vm).Step": 9, "teal.(*Lexer).Scan": 8, "teal.readTokens": 7, "teal.(CheckLoopsRule).Run": 7, "teal.(*Linter).Lint": 6, "teal.(UnusedLabelsRule).Run": 6}
	ix := make([]int, len(keys))
	for i := range ix {
		ix[i] = i
	}
	sort.SliceStable(ix, func(a, b int) bool { return w[keys[ix[a]]] > w[keys[ix[b]]] })
	return ix
}
