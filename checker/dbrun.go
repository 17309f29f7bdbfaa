package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// dbRun is the analysis of a function of the index over the database model.
type dbRun struct {
	c     *Check
	d     *DB
	x     *ai.Exec
	fn    *ssa.Function
	args  []*ai.Term
	outs  []ai.Outcome
	obs   []*ai.Ob
	loops []*ai.LoopRun
}

func (c *Check) dbRun(f *ssa.Function, setup func(r *dbRun, st *ai.State)) *dbRun {
	r := &dbRun{c: c, fn: f}
	x, st := c.W.Exec()
	r.x = x
	r.d = c.dbModels(x, st)
	if r.d == nil {
		return nil
	}
	x.MergeOver = 5000
	x.SplitNil = true
	x.Forget = func(base *ai.Term, name string) bool { return base == dbToken }
	x.Anchor = c.predicates()
	x.OnOb = func(o *ai.Ob) { r.obs = append(r.obs, o) }
	x.OnLoop = func(l *ai.LoopRun) { r.loops = append(r.loops, l) }
	r.args = x.Params(f)
	if ix := c.indexObj(r.args[0]); ix != nil && c.isIndexPtr(f.Params[0].Type()) {
		ix.state(x, st, "read")
	}
	if setup != nil {
		setup(r, st)
	}
	r.outs = x.Run(f, r.args, st)
	c.Counts["paths"] += len(r.outs)
	c.Counts["steps"] += x.Steps
	c.Errs(x, fnShort(f))
	c.saw(f)
	return r
}

func (c *Check) isIndexPtr(t types.Type) bool {
	it := c.namedType(indexPkg, "Index")
	return it != nil && types.Identical(t, types.NewPointer(it))
}

// A predicate is a function of values to a truth value. Its paths are joined by
// their result; what the result means is found out again where it matters.
type predCall struct {
	fn   *ssa.Function
	args []*ai.Term
}

var predCalls = map[*ai.Term]predCall{}

// predicates keeps the calls of predicates of the index as such, and joins the
// paths of functions that cut a piece out of a slice.
func (c *Check) predicates() func(fn *ssa.Function) ai.Model {
	return func(fn *ssa.Function) ai.Model {
		o, ok := fn.Object().(*types.Func)
		if !ok || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), module+"/") || len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 {
			return nil
		}
		rs := fn.Signature.Results()
		if rs.Len() != 1 {
			return nil
		}
		piece := isPlainSlice(rs.At(0).Type())
		if piece {
			if len(fn.Params) != 1 || !isPlainSlice(fn.Params[0].Type()) {
				return nil
			}
		} else if o.Pkg().Path() != module+"/"+indexPkg || !types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) {
			return nil
		}
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Basic); !ok && !isPlainSlice(p.Type()) {
				return nil
			}
		}
		return func(cl *ai.Call) []ai.Outcome {
			if piece {
				return joinPieces(cl, fn)
			}
			var as []*ai.Term
			for _, a := range cl.Args {
				if a.Op == ai.OSlice && (a.A[2] == ai.I64(dbKeyLen) || a.A[2] == ai.I64(dbKeyLen-8)) {
					return cl.X.Run(fn, cl.Args, cl.St) // compares keys
				}
			}
			for i, a := range cl.Args {
				as = append(as, cl.X.Pack(cl.St, a, fn.Params[i].Type()))
			}
			t := ai.App("pred:"+fnShort(fn), 0, as...)
			predCalls[t] = predCall{fn, cl.Args}
			var r []ai.Outcome
			seen := [2]bool{}
			for _, o := range cl.X.Run(fn, cl.Args, cl.St.Clone()) {
				if o.Kind != "return" {
					r = append(r, o)
					continue
				}
				for _, want := range []bool{false, true} {
					if l := o.Ret; l.IsConst() && l.True() != want || seen[b2i(want)] {
						continue
					} else if !l.IsConst() {
						if !want {
							l = ai.Not(l)
						}
						if !assume(cl.X, o.St.Clone(), l) {
							continue
						}
					}
					seen[b2i(want)] = true
					s, l := cl.St.Clone(), t
					if !want {
						l = ai.Not(t)
					}
					cl.X.Assume(s, l)
					r = append(r, ai.Outcome{Kind: "return", St: s, Ret: ai.Bool(want)})
				}
			}
			return r
		}
	}
}

// expand lists the cases in which the predicates known in a state have the
// results they have.
func expand(x *ai.Exec, st *ai.State) []*ai.State {
	sts := []*ai.State{st}
	an, ob, lp := x.Anchor, x.OnOb, x.OnLoop
	x.Anchor, x.OnOb, x.OnLoop = nil, nil, nil
	defer func() { x.Anchor, x.OnOb, x.OnLoop = an, ob, lp }()
	st.Facts.Each(func(l *ai.Term) bool {
		want := true
		if l.Op == ai.ONot {
			want, l = false, l.A[0]
		}
		p, ok := predCalls[l]
		if !ok {
			return true
		}
		var next []*ai.State
		for _, s := range sts {
			for _, o := range x.Run(p.fn, p.args, s.Clone()) {
				if o.Kind == "return" && (!o.Ret.IsConst() || o.Ret.True() == want) {
					if l := o.Ret; !l.IsConst() {
						if !want {
							l = ai.Not(l)
						}
						x.Assume(o.St, l)
					}
					if !infeasible(o.St) {
						next = append(next, o.St)
					}
				}
			}
		}
		sts = next
		return true
	})
	return sts
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func isPlainSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Basic)
	return ok
}

// joinPieces runs a function that returns a piece of its argument, and joins the
// ways in which the piece differs in length only. What is known of the length in
// all cases is kept.
func joinPieces(cl *ai.Call, fn *ssa.Function) []ai.Outcome {
	outs := cl.X.Run(fn, cl.Args, cl.St.Clone())
	arg := cl.Args[0]
	var r []ai.Outcome
	var join []ai.Outcome
	for _, o := range outs {
		if o.Kind == "return" && o.Ret.Op == ai.OSlice && o.Ret.A[0] == arg.A[0] && !o.Ret.A[4].True() &&
			(len(join) == 0 || o.Ret.A[1] == join[0].Ret.A[1] && o.Ret.A[4] == join[0].Ret.A[4]) {
			join = append(join, o)
		} else {
			r = append(r, o)
		}
	}
	if len(join) < 2 {
		return outs
	}
	st := cl.St
	p := cl.X.Pack(st, arg, fn.Params[0].Type())
	n, m := ai.App("piecelen:"+fnShort(fn), 64, p), ai.App("piececap:"+fnShort(fn), 64, p)
	off := join[0].Ret.A[1]
	room := ai.Sub(ai.Add(arg.A[1], arg.A[2]), off)
	bound := true
	for _, o := range join {
		bound = bound && holds(o.St, ai.Le(true, o.Ret.A[2], room))
	}
	l := []*ai.Term{ai.Le(true, ai.I64(0), n), ai.Le(true, n, m)}
	if bound {
		l = append(l, ai.Le(true, n, room))
	}
	for _, f := range l {
		cl.X.Assume(st, f)
	}
	return append(r, ai.Outcome{Kind: "return", St: st, Ret: ai.SliceV(arg.A[0], off, n, m, join[0].Ret.A[4])})
}
