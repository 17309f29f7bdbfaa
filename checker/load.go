package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const module = "blichmann.eu/code/btrfscue"

// Program is the type-checked program under analysis.
type Program struct {
	Dir   string
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	ByPth map[string]*packages.Package
	SSA   map[string]*ssa.Package
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load(env ...string) (*Program, error) { return loadTags("", env...) }

func loadTags(tags string, env ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir(), Env: append(os.Environ(), env...)}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: repoDir(), Pkgs: pkgs, ByPth: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.ByPth[q.PkgPath] = q
		if strings.HasPrefix(q.PkgPath, module) {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return p, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, s := range sp {
		if s != nil {
			s.Build()
			p.SSA[pkgs[i].PkgPath] = s
		}
	}
	p.Prog = prog
	return p, nil
}

// fn finds a function or method: "pkg/btrfs:Leaf.Len" or "cmd:doScanFS".
func (p *Program) fn(name string) *ssa.Function {
	i := strings.IndexByte(name, ':')
	pk := p.SSA[module+"/"+name[:i]]
	if pk == nil {
		return nil
	}
	n := name[i+1:]
	j := strings.LastIndexByte(n, '.')
	if j < 0 {
		return pk.Func(n)
	}
	tn := strings.TrimPrefix(n[:j], "*")
	t := pk.Type(tn)
	if t == nil {
		return nil
	}
	return p.method(t, n[j+1:])
}
