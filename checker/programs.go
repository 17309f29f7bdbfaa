package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Programs is everything the program does: its initialisation, all commands,
// and what the FUSE library may call. What these analyses replace by a model
// is analysed on its own, for any arguments, if it does something that is
// asked about.
type Programs struct {
	c     *Check
	parts []*Prog
	seen  map[*ssa.Function]bool
	rec   *Recover
}

// Prog is a part of the program.
type Prog struct {
	*Part
	cmd  string // the command it belongs to, or "init", "main", "library"
	root bool   // the Run function of a command
}

// programs analyses the whole program. asked tells which functions that are
// not followed need an analysis of their own.
func (c *Check) programs(asked func(f *ssa.Function) bool) *Programs {
	ps := &Programs{c: c, seen: map[*ssa.Function]bool{}}
	add := func(cmd string, v *View) {
		if v == nil {
			return
		}
		for i, p := range v.parts {
			ps.parts = append(ps.parts, &Prog{Part: p, cmd: cmd, root: i == 0})
			for f := range p.x.Seen {
				ps.seen[f] = true
			}
		}
	}
	for _, n := range sortedKeys(c.W.commands()) {
		cmd := c.W.commands()[n]
		switch n {
		case "recover":
			if ps.rec = c.recoverRun(); ps.rec != nil {
				add(n, ps.rec.v)
			}
		case "mount":
			add(n, c.mountView(nil))
		case "recon", "identify":
			api := writeAPI
			if n == "identify" {
				api = identifyAPI
			}
			for _, bs := range append([]int64{0, 12345}, blockSizes...) {
				bs := bs
				v := &View{c: c, name: fmt.Sprintf("%s with %d byte blocks", n, bs), api: api}
				v.run(nil, Root{cmd.Run, func(p *Part) []ai.Outcome {
					p.x.RecPaths = 400
					if g := c.W.global("cmd/btrfscue/app", "Global"); g != nil {
						if i, t := fieldNamed(g.Type().Underlying(), "BlockSize"); i >= 0 {
							p.st.Store(ai.FieldAddr(ai.GlobalAddr(g), i), ai.I64(bs), t)
						}
					}
					return c.W.runCommandWith(p.x, p.st, cmd, func(args []*ai.Term) { p.args = args })
				}})
				add(n, v)
			}
		default:
			add(n, c.viewCommandWith(n, nil))
		}
	}
	// other functions that cobra calls, and main
	for _, f := range c.W.hooks() {
		f := f
		v := &View{c: c, name: fnShort(f)}
		v.run(nil, Root{f, func(p *Part) []ai.Outcome {
			p.args = p.x.Params(f)
			for fv, t := range c.W.captured(f) {
				p.st.Store(ai.FreeVar(fv), t, fv.Type().(*types.Pointer).Elem())
			}
			return p.x.RunFree(f, p.args, p.st)
		}})
		add("main", v)
	}
	// initialisation
	{
		p := &Part{fn: nil}
		x, _ := c.W.Exec()
		p.x = x
		x.InitEvents = true
		x.OnEvent = func(e *ai.Event) {
			p.all = append(p.all, e)
			if c.onEvent != nil {
				c.onEvent(x, e)
			}
		}
		var pk []*ssa.Package
		for _, q := range c.W.P.topo() {
			pk = append(pk, c.W.P.SSA[q])
		}
		x.RunInit(pk, func(g *ssa.Global) bool { return c.W.consts[g] })
		c.Errs(x, "initialisation")
		ps.parts = append(ps.parts, &Prog{Part: p, cmd: "init"})
		for f := range x.Seen {
			ps.seen[f] = true
		}
	}
	// what was not followed: first what the rest calls
	reach := c.W.reaching(asked)
	for {
		var f *ssa.Function
		for _, g := range c.W.allFns {
			if ps.seen[g] || !reach[g] || g.Parent() != nil && !ps.seen[g.Parent()] && reach[g.Parent()] {
				continue
			}
			if f == nil && asked(g) {
				f = g
			}
			if c.W.calledBy(g, func(h *ssa.Function) bool { return ps.seen[h] }) {
				f = g
				break
			}
		}
		if f == nil {
			break
		}
		ps.seen[f] = true
		v := &View{c: c, name: fnShort(f), api: func() map[string]ai.Model { return nil }}
		v.run(nil, Root{f, func(p *Part) []ai.Outcome {
			p.args = p.x.Params(f)
			for i, a := range p.args {
				if _, ok := f.Params[i].Type().Underlying().(*types.Pointer); ok && i == 0 && f.Signature.Recv() != nil {
					p.x.Assume(p.st, ai.Not(ai.Eq(a, ai.Nil)))
				}
			}
			return p.x.RunFree(f, p.args, p.st)
		}})
		add("library", v)
	}
	return ps
}

// captured finds captured variables that hold the address of a package
// variable or of a part of one.
func (w *World) captured(f *ssa.Function) map[*ssa.FreeVar]*ai.Term {
	r := map[*ssa.FreeVar]*ai.Term{}
	g := f.Parent()
	if g == nil || len(f.FreeVars) == 0 {
		return r
	}
	x, st := w.Exec()
	var clo *ai.Term
	x.OnMem = func(e *ai.Event) {
		if v := e.Args[1]; e.Kind == "store" && v != nil && v.Op == ai.OClo && v.X == f {
			clo = v
		}
	}
	outs := x.RunFree(g, x.Params(g), st)
	if clo == nil || len(outs) != 1 || len(clo.A) != len(f.FreeVars) {
		return r
	}
	for i, fv := range f.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if _, ok := pt.Elem().Underlying().(*types.Pointer); !ok {
			continue
		}
		v := outs[0].St.Load(clo.A[i], pt.Elem())
		if b := ai.Base(v); b != nil && w.isGlobal(b) {
			r[fv] = v
		}
	}
	return r
}

// isGlobal reports whether an object is a package variable.
func (w *World) isGlobal(o *ai.Term) bool {
	if w.globals == nil {
		w.globals = map[*ai.Term]bool{}
		for _, p := range w.P.topo() {
			if s := w.P.SSA[p]; s != nil {
				for _, m := range s.Members {
					if g, ok := m.(*ssa.Global); ok {
						w.globals[ai.GlobalAddr(g)] = true
					}
				}
			}
		}
	}
	return w.globals[o]
}

// hooks finds the functions besides Run that are kept in commands, and main.
func (w *World) hooks() []*ssa.Function {
	run := map[*ssa.Function]bool{}
	for _, c := range w.commands() {
		run[c.Run] = true
	}
	var r []*ssa.Function
	add := func(v ssa.Value) {
		var f *ssa.Function
		switch v := v.(type) {
		case *ssa.MakeClosure:
			f = v.Fn.(*ssa.Function)
		case *ssa.Function:
			f = v
		}
		if f != nil && !run[f] && len(f.Blocks) > 0 && strings.HasPrefix(pkgOf(f), module) {
			run[f] = true
			r = append(r, f)
		}
	}
	for _, f := range w.allFns {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			add(f)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.TypeString(pt.Elem(), nil) == "github.com/spf13/cobra.Command" {
						add(s.Val)
					}
				}
			}
		}
	}
	return r
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// calls lists the functions that a function refers to.
func refers(f *ssa.Function, want func(name string) bool) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, o := range ins.Operands(nil) {
				if g, ok := (*o).(*ssa.Function); ok && want(g.String()) {
					return true
				}
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() && want(staticName2(c.Common())) {
					return true
				}
			}
		}
	}
	return false
}

func staticName2(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// callGraph lists the functions of the module that a function refers to.
func (w *World) callGraph() map[*ssa.Function]map[*ssa.Function]bool {
	if w.refs != nil {
		return w.refs
	}
	w.refs = map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		m := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						if g.Origin() != nil {
							m[g.Origin()] = true
						}
						m[g] = true
					}
				}
			}
		}
		w.refs[f] = m
	}
	return w.refs
}

// reaching finds the functions that may call one that is asked for.
func (w *World) reaching(asked func(f *ssa.Function) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		if asked(f) {
			r[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for f, m := range w.callGraph() {
			for g := range m {
				if r[g] && !r[f] {
					r[f], ch = true, true
				}
			}
		}
	}
	return r
}

func (w *World) calledBy(g *ssa.Function, by func(f *ssa.Function) bool) bool {
	for f, m := range w.callGraph() {
		if m[g] && by(f) {
			return true
		}
	}
	return false
}
