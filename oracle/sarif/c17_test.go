package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/dragmz/teal"
)

// The tool itself runs (main, with -path), on files in a scratch directory.
func sarifRun(dir, path string) (map[string]any, error) {
	out := filepath.Join(dir, "out.json")
	f, err := os.Create(out)
	if err != nil {
		return nil, err
	}
	so, sa := os.Stdout, os.Args
	os.Stdout, os.Args = f, []string{"tealsarif", "-path", path}
	flag.CommandLine = flag.NewFlagSet("tealsarif", flag.PanicOnError)
	func() {
		defer func() { os.Stdout, os.Args = so, sa; f.Close() }()
		main()
	}()
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, err
	}
	var v map[string]any
	return v, json.Unmarshal(b, &v)
}

func at(v any, path ...any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, _ := v.(map[string]any)
			v = m[k]
		case int:
			a, _ := v.([]any)
			if k >= len(a) {
				return nil
			}
			v = a[k]
		}
	}
	return v
}

func TestOracleC17(t *testing.T) {
	o := vNew(t, "directories of generated programs with findings of every rule and severity; the tool's report is compared with the diagnostics of each file")
	root, err := os.MkdirTemp("", "verif-sarif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	lines := []string{"#pragma version 8", "#pragma version 1", "int 1", "b a", "a:", "b b", "b:", "b:", "unused:", "return", "err", "box_get", "byte", "zzz", "int 1 2 3",
		"byte \"open", "x: ", "b x", "args", "txn Foo", "", "// c", "//#pragma mode logicsig", "log", "bz nowhere", "switch a b", "\tint", "  pop", "байт"}
	levels := map[int]string{1: "error", 2: "warning", 3: "note", 4: "note"}
	for i := 0; i < o.N(1500) && !o.Expired(); i++ {
		dir := filepath.Join(root, fmt.Sprint("d", i))
		names := []string{"a.teal", "b.teal", "sub/c.teal", "sub/d e.teal", "sub2/%41.teal", "z.teal"}
		n := o.R.Intn(5)
		files := map[string]string{}
		for k := 0; k < n; k++ {
			var ls []string
			for j := o.R.Intn(9); j > 0; j-- {
				ls = append(ls, lines[o.R.Intn(len(lines))])
			}
			files[names[o.R.Intn(len(names))]] = strings.Join(ls, []string{"\n", "\r\n"}[o.R.Intn(2)])
		}
		single := n > 0 && o.R.Intn(4) == 0
		os.MkdirAll(dir, 0o755)
		os.WriteFile(filepath.Join(dir, "note.txt"), []byte("zzz"), 0o644)
		var paths []string
		for f, s := range files {
			p := filepath.Join(dir, f)
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte(s), 0o644)
			paths = append(paths, p)
		}
		sort.Strings(paths)
		arg := dir
		if single {
			paths = paths[:1]
			arg = paths[0]
		}
		in := fmt.Sprintf("single=%v %q", single, files)
		o.Case(in, n > 0, func(fail func(string, string, any, any)) {
			v, err := sarifRun(root, arg)
			if err != nil {
				fail("json", "the report is JSON", "valid", err)
				return
			}
			rules := map[string]bool{}
			rs, _ := at(v, "runs", 0, "tool", "driver", "rules").([]any)
			for _, r := range rs {
				rules[fmt.Sprint(at(r, "id"))] = true
			}
			arts, _ := at(v, "runs", 0, "artifacts").([]any)
			// The files the tool reports on, each exactly once; their order is the tool's.
			want := map[string]string{}
			for _, p := range paths {
				want[(&url.URL{Scheme: "file", Path: p}).String()] = p
			}
			var order []string
			for _, a := range arts {
				u := fmt.Sprint(at(a, "location", "uri"))
				if _, ok := want[u]; !ok {
					fail("artifact", "artifacts are the analysed files", paths, u)
					return
				}
				order = append(order, u)
			}
			if len(order) != len(paths) {
				fail("artifact", "one artifact per file", len(paths), len(order))
				return
			}
			res, _ := at(v, "runs", 0, "results").([]any)
			k := 0
			unordered := map[string]bool{"LINT0001": true, "LINT0002": true, "LINT0005": true} // Process orders these findings differently on every run
			var wants, gots []string
			for idx, u := range order {
				src, _ := os.ReadFile(want[u])
				for _, d := range teal.Process(string(src)).Diagnostics {
					if k >= len(res) {
						fail("missing", "one result per diagnostic", d.String(), "none")
						return
					}
					r := res[k]
					k++
					loc := at(r, "locations", 0, "physicalLocation")
					w := fmt.Sprint(d.Rule(), "|", d.String(), "|", levels[int(d.Severity())], "|", d.Line()+1, "|", d.Begin()+1, "|", u, "|", idx)
					num := func(x any) string {
						f, ok := x.(float64)
						if !ok {
							return fmt.Sprint(x)
						}
						return fmt.Sprint(int(f))
					}
					g := fmt.Sprint(at(r, "ruleId"), "|", at(r, "message", "text"), "|", at(r, "level"), "|", num(at(loc, "region", "startLine")), "|", num(at(loc, "region", "startColumn")), "|",
						at(loc, "artifactLocation", "uri"), "|", num(at(loc, "artifactLocation", "index")))
					wants, gots = append(wants, w), append(gots, g)
					if w != g && !(unordered[d.Rule()] && d.Rule() == fmt.Sprint(at(r, "ruleId"))) {
						fail("result", "result mirrors its diagnostic", w, g)
						return
					}
					if ls, _ := at(r, "locations").([]any); len(ls) != 1 {
						fail("location", "one location per result", 1, len(ls))
						return
					}
					if !rules[d.Rule()] {
						fail("rule", "every rule referenced is declared", d.Rule(), rules)
						return
					}
				}
			}
			sort.Strings(wants)
			sort.Strings(gots)
			if w, g := strings.Join(wants, "\n"), strings.Join(gots, "\n"); w != g {
				fail("result", "results mirror the diagnostics", w, g)
			}
			if k != len(res) {
				fail("extra", "no result without a diagnostic", k, len(res))
			}
			if runs, _ := at(v, "runs").([]any); len(runs) != 1 {
				fail("runs", "one run", 1, len(runs))
			}
		})
		os.RemoveAll(dir)
	}
	o.Done()
}
