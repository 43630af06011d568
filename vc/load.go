// Package vc is a deductive verification-condition generator for Go.
//
// It works on the SSA form (golang.org/x/tools/go/ssa) of the functions in
// /repo exactly as they are on disk at the time of the run; nothing is copied
// or rewritten by hand.  Contracts are read from /verif/contracts.
package vc

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by package path
	Funcs map[string]*ssa.Function
	// named types of the analysed module, for type tags
	Named []*types.Named

	All []*ssa.Function

	initOnly map[*ssa.Global]bool
	boxed    map[string]bool
}

const RepoModule = "github.com/dragmz/teal"

func short(path string) string {
	if path == RepoModule {
		return "teal"
	}
	if strings.HasPrefix(path, RepoModule+"/") {
		return strings.TrimPrefix(path, RepoModule+"/")
	}
	return path
}

// FuncKey is the name contracts use for a function.
func FuncKey(f *ssa.Function) string {
	if f.Pkg == nil {
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			// generic instance
			return short(o.Pkg.Pkg.Path()) + "." + f.Name()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			p := f.Object().Pkg()
			if strings.HasPrefix(p.Path(), RepoModule) {
				return short(p.Path()) + "." + f.RelString(p)
			}
		}
		return f.String()
	}
	p := f.Pkg.Pkg
	if strings.HasPrefix(p.Path(), RepoModule) {
		return short(p.Path()) + "." + f.RelString(p)
	}
	return f.String()
}

func Load(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, RepoModule) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, initOnly: map[*ssa.Global]bool{}}
	for _, sp := range spkgs {
		if sp != nil {
			p.Pkgs[sp.Pkg.Path()] = sp
		}
	}
	stored := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), RepoModule) {
			if o := f.Origin(); !(o != nil && o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), RepoModule)) {
				continue
			}
		}
		if f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "instance") {
			p.Funcs[FuncKey(f)] = f
		}
		p.All = append(p.All, f)
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || (f.Parent() != nil && f.Parent().Name() == "init")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isInit {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						stored[g] = true
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					switch in.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						continue
					}
					stored[g] = true
				}
			}
		}
	}
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.initOnly[g] = !stored[g]
			}
		}
	}
	for path, sp := range p.Pkgs {
		if !strings.HasPrefix(path, RepoModule) {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.Named = append(p.Named, nt)
				}
			}
		}
	}
	sort.Slice(p.Named, func(i, j int) bool { return p.Named[i].String() < p.Named[j].String() })
	return p, nil
}
