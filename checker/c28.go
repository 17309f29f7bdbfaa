package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

func init() {
	checks["C28"] = func(c *Check) {
		c.Rules = map[string]string{
			"compiles":    "the package type-checks in the configuration",
			"covered":     "every Go source file is part of at least one configuration",
			"unsupported": "without mount support, mounting and serving return an error on every path",
			"entry":       "every configuration has the main program with its profiling hooks",
		}
		type conf struct{ os, tags string }
		var confs []conf
		for _, o := range []string{"linux", "darwin", "freebsd", "openbsd", "netbsd"} {
			for _, t := range []string{"", "pprof"} {
				confs = append(confs, conf{o, t})
			}
		}
		progs := make([]*Program, len(confs))
		perrs := make([][]string, len(confs))
		var wg sync.WaitGroup
		for i, k := range confs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				progs[i], perrs[i] = loadDeep(k.tags, "GOOS="+k.os, "CGO_ENABLED=0")
			}()
		}
		wg.Wait()
		files := map[string]bool{}
		for i, k := range confs {
			name := k.os
			if k.tags != "" {
				name += "+" + k.tags
			}
			p := progs[i]
			if p == nil {
				c.Fail(name, "cannot load: %s", strings.Join(perrs[i], "; "))
				continue
			}
			bad := map[string]bool{}
			for _, e := range perrs[i] {
				pk, msg, _ := strings.Cut(e, "\t")
				bad[pk] = true
				c.Ob(false, "compiles", name+" "+short(pk), "", "%s", msg)
			}
			for _, q := range p.Pkgs {
				if !bad[q.PkgPath] {
					c.Ob(true, "compiles", name+" "+short(q.PkgPath), "", "")
				}
				for _, f := range q.GoFiles {
					files[f] = true
				}
			}
			mp := p.SSA[module+"/cmd/btrfscue"]
			c.Ob(mp != nil && mp.Func("main") != nil, "entry", name, "", "no main program")
			if len(perrs[i]) > 0 || k.tags != "" || k.os == "linux" || k.os == "darwin" {
				continue
			}
			c.null(p, name)
		}
		filepath.Walk(c.P.Dir, func(f string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, "_test.go") {
				r, _ := filepath.Rel(c.P.Dir, f)
				if !strings.HasPrefix(r, ".") && !strings.HasPrefix(r, "vendor") && !strings.Contains(r, "testdata") && !strings.HasSuffix(f, "_windows.go") {
					c.Counts["files"]++
					if !files[f] {
						// generators and the like declare that they belong to no build
						b, _ := os.ReadFile(f)
						ign := strings.Contains(string(b), "+build ignore") || strings.Contains(string(b), "go:build ignore")
						c.Ob(ign, "covered", r, "", "part of no supported configuration")
						return nil
					}
					c.Ob(true, "covered", r, "", "")
				}
			}
			return nil
		})
		c.Counts["configurations"] = len(confs)
	}
}

func short(p string) string { return strings.TrimPrefix(strings.TrimPrefix(p, module), "/") }

// null checks the file system without mount support.
func (c *Check) null(p *Program, name string) {
	sub := &Check{ID: c.ID, P: p, obs: c.obs, Fns: c.Fns, Counts: c.Counts, Rules: c.Rules}
	sub.W = newWorld(p)
	for _, n := range []string{"Mount", "Serve"} {
		f := p.fn("internal/rescuefs:rescueFS." + n)
		if f == nil {
			c.Fail(name+" "+n, "rescueFS.%s not found", n)
			continue
		}
		var outs []ai.Outcome
		_, _, outs = sub.run(f, nil, nil)
		for _, o := range outs {
			bad := o.Kind == "panic" || o.Kind == "return" && (o.Ret == nil || !notHolds(o.St, ai.Eq(o.Ret, ai.Nil)))
			c.Ob(!bad, "unsupported", name+" "+fnShort(f), sub.pos(f.Pos()), "returns %v", o.Ret)
		}
	}
	c.order = sub.order2(c.order)
}

func (s *Check) order2(prev []string) []string {
	have := map[string]bool{}
	for _, k := range prev {
		have[k] = true
	}
	var add []string
	for k := range s.obs {
		if !have[k] {
			add = append(add, k)
		}
	}
	sort.Strings(add)
	return append(prev, add...)
}

// loadDeep type-checks the program and its dependencies from source in a
// configuration. Errors are "package<tab>message".
func loadDeep(tags string, env ...string) (*Program, []string) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repoDir(), Env: append(os.Environ(), env...)}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, []string{err.Error()}
	}
	p := &Program{Dir: repoDir(), Pkgs: pkgs, ByPth: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.ByPth[q.PkgPath] = q
		if strings.HasPrefix(q.PkgPath, module) {
			for _, e := range q.Errors {
				errs = append(errs, q.PkgPath+"\t"+e.Error())
			}
			if q.Types == nil && len(q.Errors) == 0 {
				errs = append(errs, q.PkgPath+"\tno type information")
			}
		}
	})
	if len(errs) > 0 {
		return p, errs
	}
	defer func() {
		if r := recover(); r != nil {
			errs = append(errs, fmt.Sprint(module, "\tprogram construction: ", r))
		}
	}()
	prog, sp := ssautil.Packages(pkgs, 0)
	for i, s := range sp {
		if s != nil {
			s.Build()
			p.SSA[pkgs[i].PkgPath] = s
		}
	}
	p.Prog = prog
	return p, errs
}
