property="C17"
needs="two diagnostics of one rule at the same position, as for a branch instruction that names two undefined labels"
breaks="the second of two diagnostics with the same rule and position is left out of the report"
pkg="cmd/tealsarif"
edits=[("cmd/tealsarif/main.go","""		for _, d := range res.Diagnostics {
			run.Results""","""		for i, d := range res.Diagnostics {
			if i > 0 {
				p := res.Diagnostics[i-1]
				if p.Rule() == d.Rule() && p.Line() == d.Line() && p.Begin() == d.Begin() {
					continue
				}
			}
			run.Results""")]
demo='''
package main

import (
	"encoding/json"
	"io"
	"os"
	"testing"

	"github.com/dragmz/teal"
)

func TestDemo(t *testing.T) {
	src := "#pragma version 8\\nint 1\\nswitch a b c\\n"
	d := t.TempDir()
	os.WriteFile(d+"/a.teal", []byte(src), 0o644)
	r, w, _ := os.Pipe()
	o := os.Stdout
	os.Stdout = w
	err := run(args{Path: d})
	w.Close()
	os.Stdout = o
	if err != nil {
		t.Fatal(err)
	}
	b, _ := io.ReadAll(r)
	var v struct {
		Runs []struct {
			Results []struct{ RuleId string }
		}
	}
	if err := json.Unmarshal(b, &v); err != nil {
		t.Fatal(err)
	}
	if got, want := len(v.Runs[0].Results), len(teal.Process(src).Diagnostics); got != want {
		t.Fatal(got, want)
	}
}
'''
