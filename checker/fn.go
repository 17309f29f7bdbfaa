package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// same reports whether two values are equal in a state.
func same(st *ai.State, a, b *ai.Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if (a.Op == ai.OStruct || a.Op == ai.OTuple) && a.Op == b.Op && len(a.A) == len(b.A) {
		for i := range a.A {
			if !same(st, a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	}
	if a.Op == ai.OApp && b.Op == ai.OApp && a.S == b.S && len(a.A) == len(b.A) && len(a.A) > 0 {
		ok := true
		for i := range a.A {
			if !same(st, a.A[i], b.A[i]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	if a.Op == ai.OStruct || b.Op == ai.OStruct || a.Op == ai.OSlice || b.Op == ai.OSlice {
		return false
	}
	return holds(st, ai.Eq(a, b))
}

func holds(st *ai.State, l *ai.Term) bool { return st.Facts.Holds(l) > 0 }

func notHolds(st *ai.State, l *ai.Term) bool { return st.Facts.Holds(l) < 0 }

// decides reports whether in a state the boolean got is equivalent to want.
func decides(x *ai.Exec, st *ai.State, got, want *ai.Term) bool {
	if got == want {
		return true
	}
	for _, v := range []bool{true, false} {
		g, w := got, want
		if !v {
			g, w = ai.Not(got), ai.Not(want)
		}
		if notHolds(st, g) {
			continue
		}
		s := st.Clone()
		x.Assume(s, g)
		if !holds(s, w) && !infeasible(s) {
			return false
		}
	}
	return true
}

func infeasible(s *ai.State) bool { return s.Facts.Holds(ai.Bool(false)) > 0 }

// constOf returns the value of an exported or local package constant.
func (p *Program) constOf(pkg, name string) (uint64, types.Type, bool) {
	q := p.ByPth[module+"/"+pkg]
	if q == nil || q.Types == nil {
		return 0, nil, false
	}
	c, ok := q.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, nil, false
	}
	v := constant.ToInt(c.Val())
	if v.Kind() != constant.Int {
		return 0, nil, false
	}
	if u, ok := constant.Uint64Val(v); ok {
		return u, c.Type(), true
	}
	if i, ok := constant.Int64Val(v); ok {
		return uint64(i), c.Type(), true
	}
	return 0, nil, false
}

// methodsOf lists the methods of a named type of the program.
func (p *Program) methodsOf(pkg, typ string) map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	s := p.SSA[module+"/"+pkg]
	if s == nil {
		return r
	}
	t := s.Type(typ)
	if t == nil {
		return r
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.Prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			fo, ok := ms.At(i).Obj().(*types.Func)
			if !ok || fo.Pkg() != s.Pkg {
				continue
			}
			if f := p.Prog.FuncValue(fo); f != nil && len(f.Blocks) > 0 {
				r[fo.Name()] = f
			}
		}
	}
	return r
}

// run interprets a function on given arguments, collecting its safety
// obligations in onOb (may be nil).
func (c *Check) run(f *ssa.Function, setup func(x *ai.Exec, st *ai.State, args []*ai.Term), onOb func(o *ai.Ob)) (*ai.Exec, []*ai.Term, []ai.Outcome) {
	x, st := c.W.Exec()
	x.OnOb = onOb
	args := x.Params(f)
	if setup != nil {
		setup(x, st, args)
	}
	outs := x.Run(f, args, st)
	c.saw(f)
	c.Counts["paths"] += len(outs)
	c.Counts["steps"] += x.Steps
	c.Errs(x, fnShort(f))
	return x, args, outs
}

// pureAnchor keeps calls of some functions as applications of pure functions.
func pureAnchor(sel func(g *ssa.Function) bool) func(fn *ssa.Function) ai.Model {
	return func(fn *ssa.Function) ai.Model {
		if !sel(fn) {
			return nil
		}
		return func(cl *ai.Call) []ai.Outcome {
			return cl.Quiet(cl.X.Val(fnShort(fn), cl.Sig.Results().At(0).Type(), cl.Args...))
		}
	}
}

// assume adds a literal to a state; false means the state is impossible.
func assume(x *ai.Exec, s *ai.State, ls ...*ai.Term) bool {
	for _, l := range ls {
		if notHolds(s, l) {
			return false
		}
		x.Assume(s, l)
	}
	return !infeasible(s) && !contradictory(s)
}

// contradictory reports whether a state claims that two equal structures differ.
func contradictory(s *ai.State) bool {
	bad := false
	s.Facts.Each(func(l *ai.Term) bool {
		if a, b, ok := ai.Differ(l); ok && (a.Op == ai.OStruct || a.Op == ai.OTuple) && same(s, a, b) {
			bad = true
		}
		return !bad
	})
	return bad
}
