property="C04"
needs="a multi-target switch or match that names one label twice before naming another"
breaks="targets after a repeated one no longer count as references, so their labels are reported unused and undefined ones are not reported missing"
edits=[("linter.go",'''			for _, l := range o2.Labels() {
				used[l.Name] = append(used[l.Name], i)
			}''','''			seen := map[string]bool{}
			for _, l := range o2.Labels() {
				if len(seen) > 0 && seen[l.Name] {
					break
				}
				seen[l.Name] = true
				used[l.Name] = append(used[l.Name], i)
			}''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	r := Process("#pragma version 8\\nint 0\\nswitch a a b\\na:\\nb:\\nint 1\\n")
	for _, d := range r.Diagnostics {
		if d.Rule() == "LINT0002" {
			t.Fatal(d.Line(), d.String())
		}
	}
}
'''
