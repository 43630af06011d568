package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"verif/vc"
)

func main() {
	unit := flag.String("unit", "", "verify units (comma separated)")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "dump dir")
	ssaDump := flag.String("ssa", "", "print the SSA of a function")
	repo := flag.String("repo", "/repo", "")
	con := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "run the check of a property")
	tier := flag.String("tier", "quick", "quick or thorough")
	units := flag.String("units", "", "all units of a property")
	match := flag.String("match", ".", "filter for -units")
	flag.Parse()
	if *prop != "" {
		os.Exit(check(*prop, *tier, *repo))
	}
	p, err := vc.Load(*repo, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *ssaDump != "" {
		p.Funcs[*ssaDump].WriteTo(os.Stdout)
		return
	}
	cs, err := vc.LoadContracts(*con)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	keys := strings.Split(*unit, ";")
	if *units != "" {
		keys = nil
		re := regexp.MustCompile(*match)
		for _, k := range cs.UnitsFor(p, *units) {
			if re.MatchString(k) {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
	}
	for _, u := range keys {
		r := vc.Verify(p, cs, u, vc.Options{Verbose: *verbose, DumpDir: *dump})
		fmt.Printf("%s: %d obligations, %d failed, %d cands (%d kept), %dms vacuous=%v %s\n", u, len(r.Obls), len(r.Failed), r.Cands, len(r.Invs), r.Millis, r.Vacuous, r.Undecided)
		for _, o := range r.Failed {
			fmt.Printf("   FAIL %s [%s] %s\n        %s\n", o.Name, o.Pos, o.Text, o.Output)
		}
		if *verbose {
			fmt.Println("  used:", r.Used, "\n  inlined:", r.Inlined)
			for _, i := range r.Invs {
				fmt.Println("   inv:", i)
			}
			for _, a := range r.Assumed {
				fmt.Println("   assumed:", a)
			}
		}
	}
}
