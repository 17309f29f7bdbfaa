package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// World holds what all analyses of a program share.
type World struct {
	rec  map[*ssa.Function]bool
	refs map[*ssa.Function]map[*ssa.Function]bool

	P       *Program
	consts  map[*ssa.Global]bool
	globals map[*ai.Term]bool
	init    *ai.State
	allFns  []*ssa.Function
}

func newWorld(p *Program) *World {
	w := &World{P: p}
	w.allFns = p.functions()
	w.consts = constGlobals(w.allFns)
	return w
}

// functions lists all functions of the module with bodies.
func (p *Program) functions() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, q := range p.Pkgs {
		s := p.SSA[q.PkgPath]
		if s == nil {
			continue
		}
		for _, n := range sortedKeys(s.Members) {
			switch m := s.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fo, ok := ms.At(i).Obj().(*types.Func)
						if !ok || fo.Pkg() != s.Pkg {
							continue
						}
						if f := p.Prog.FuncValue(fo); f != nil && f.Pkg == s {
							add(f)
						}
					}
				}
			}
		}
	}
	return r
}

// constGlobals finds the package variables that are only read outside of the
// package's variable initialisation.
func constGlobals(fns []*ssa.Function) map[*ssa.Global]bool {
	bad := map[*ssa.Global]bool{}
	all := map[*ssa.Global]bool{}
	for _, f := range fns {
		isInit := f.Name() == "init" && f.Parent() == nil && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					all[g] = true
					if isInit {
						continue
					}
					if !readOnlyUse(ins, g) {
						bad[g] = true
					}
				}
			}
		}
	}
	r := map[*ssa.Global]bool{}
	for g := range all {
		if !bad[g] {
			r[g] = true
		}
	}
	return r
}

func readOnlyUse(ins ssa.Instruction, v ssa.Value) bool {
	switch i := ins.(type) {
	case *ssa.UnOp:
		return true
	case *ssa.FieldAddr:
		return allReads(i)
	case *ssa.IndexAddr:
		return i.X == v && allReads(i)
	case *ssa.DebugRef:
		return true
	case *ssa.Slice: // of an array
		return true
	}
	return false
}

func allReads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if !readOnlyUse(r, v) {
			return false
		}
	}
	return true
}

// Exec makes an interpreter and a state in which unmodified package variables
// have their values.
func (w *World) Exec() (*ai.Exec, *ai.State) {
	x := &ai.Exec{Prog: w.P.Prog, Module: module, Models: ai.StdModels(), OpaqueTypes: map[string]bool{"time.Time": true},
		MaxStep: 3000000, RecPaths: 400}
	for n, m := range ai.BoltModels() {
		x.Models[n] = m
	}
	if w.init == nil {
		var ps []*ssa.Package
		for _, q := range w.P.topo() {
			ps = append(ps, w.P.SSA[q])
		}
		w.init = x.RunInit(ps, func(g *ssa.Global) bool { return w.consts[g] })
	}
	st := w.init.Clone()
	ai.Rebind(st, x)
	return x, st
}

// topo lists the module's packages in dependency order.
func (p *Program) topo() []string {
	var r []string
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if seen[n] || !strings.HasPrefix(n, module) {
			return
		}
		seen[n] = true
		q := p.ByPth[n]
		if q == nil {
			return
		}
		for _, k := range sortedKeys(q.Imports) {
			visit(k)
		}
		if p.SSA[n] != nil {
			r = append(r, n)
		}
	}
	for _, q := range p.Pkgs {
		visit(q.PkgPath)
	}
	return r
}

// Command is a cobra command of the program.
type Command struct {
	Use      string
	Run      *ssa.Function
	Min, Max int64 // number of arguments, -1: any
	Init     *ssa.Function
}

// commands finds the cobra commands by the stores into cobra.Command literals.
func (w *World) commands() map[string]*Command {
	r := map[string]*Command{}
	for _, f := range w.allFns {
		byObj := map[ssa.Value]*Command{}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || types.TypeString(pt.Elem(), nil) != "github.com/spf13/cobra.Command" {
					continue
				}
				name := pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				c := byObj[fa.X]
				if c == nil {
					c = &Command{Min: -1, Max: -1, Init: f}
					byObj[fa.X] = c
				}
				switch name {
				case "Use":
					if k, ok := s.Val.(*ssa.Const); ok {
						c.Use = strings.Trim(k.Value.ExactString(), "\"`")
					}
				case "Run", "RunE":
					switch v := s.Val.(type) {
					case *ssa.MakeClosure:
						c.Run = v.Fn.(*ssa.Function)
					case *ssa.Function:
						c.Run = v
					}
				case "Args":
					v := s.Val
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
					}
					if cl, ok := v.(*ssa.Call); ok {
						if g, ok := cl.Call.Value.(*ssa.Function); ok {
							k := func(i int) int64 {
								if q, ok := cl.Call.Args[i].(*ssa.Const); ok {
									return q.Int64()
								}
								return -1
							}
							switch g.Name() {
							case "ExactArgs":
								c.Min, c.Max = k(0), k(0)
							case "RangeArgs":
								c.Min, c.Max = k(0), k(1)
							case "MinimumNArgs":
								c.Min = k(0)
							case "MaximumNArgs":
								c.Max = k(0)
							}
						}
					} else if g, ok := v.(*ssa.Function); ok && g.Name() == "NoArgs" {
						c.Min, c.Max = 0, 0
					}
				}
			}
		}
		for _, c := range byObj {
			if c.Run != nil && c.Use != "" {
				n := strings.Fields(c.Use)[0]
				r[n] = c
			}
		}
	}
	return r
}

// runCommand interprets the Run function of a command.
func (w *World) runCommand(x *ai.Exec, st *ai.State, c *Command) []ai.Outcome {
	return w.runCommandWith(x, st, c, nil)
}

func (w *World) runCommandWith(x *ai.Exec, st *ai.State, c *Command, start func(args []*ai.Term)) []ai.Outcome {
	args := x.Params(c.Run)
	if start != nil {
		start(args)
	}
	if len(args) > 0 {
		a := args[len(args)-1]
		if a.Op == ai.OSlice {
			if c.Min >= 0 {
				x.Assume(st, ai.Le(true, ai.I64(c.Min), a.A[2]))
			}
			if c.Max >= 0 {
				x.Assume(st, ai.Le(true, a.A[2], ai.I64(c.Max)))
			}
		}
	}
	return x.RunFree(c.Run, args, st)
}

// global finds a package variable.
func (w *World) global(pkg, name string) *ssa.Global {
	s := w.P.SSA[module+"/"+pkg]
	if s == nil {
		return nil
	}
	return s.Var(name)
}
