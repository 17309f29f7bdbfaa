package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// The mounted view: the mount command, and the methods that the FUSE library
// calls on the nodes and files that it was given.

const nodefsPkg = "github.com/hanwen/go-fuse/v2/fuse/nodefs"

// handlerTypes are the struct types whose pointers are FUSE nodes or files.
func (w *World) handlerTypes() []*types.Named {
	var ifs []*types.Interface
	for _, p := range w.P.Prog.AllPackages() {
		if p.Pkg.Path() != nodefsPkg {
			continue
		}
		for _, n := range []string{"Node", "File"} {
			if t, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				if i, ok := t.Type().Underlying().(*types.Interface); ok {
					ifs = append(ifs, i)
				}
			}
		}
	}
	var r []*types.Named
	for _, q := range w.P.Pkgs {
		s := w.P.SSA[q.PkgPath]
		if s == nil {
			continue
		}
		for _, n := range sortedKeys(s.Members) {
			t, ok := s.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			for _, i := range ifs {
				if types.Implements(types.NewPointer(nt), i) {
					r = append(r, nt)
					break
				}
			}
		}
	}
	return r
}

// handlers are the module's own methods of handler types that the library can
// call through its interfaces.
func (w *World) handlers() []*ssa.Function {
	var r []*ssa.Function
	for _, t := range w.handlerTypes() {
		ms := w.P.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			fo := ms.At(i).Obj().(*types.Func)
			if !fo.Exported() || fo.Pkg() != t.Obj().Pkg() {
				continue
			}
			f := w.P.Prog.FuncValue(fo)
			if f == nil || len(f.Blocks) == 0 || len(f.Params) == 0 {
				continue
			}
			if pt, ok := f.Params[0].Type().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
				r = append(r, f)
			}
		}
	}
	return r
}

// fieldPath is a field reached from a handler: field numbers, following
// pointers to structs of the module.
type fieldPath struct {
	idx  []int
	typ  types.Type
	name string
	last *types.Var
}

func (w *World) inModule(t types.Type) (*types.Named, *types.Struct) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), module) {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

// nilable lists the fields of a struct that could be nil.
func (w *World) nilable(t types.Type, idx []int, name string, depth int) []fieldPath {
	_, s := w.inModule(t)
	if s == nil {
		return nil
	}
	var r []fieldPath
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := append(append([]int{}, idx...), i)
		n := name + "." + f.Name()
		switch u := f.Type().Underlying().(type) {
		case *types.Pointer:
			r = append(r, fieldPath{p, f.Type(), n, f})
			if e, _ := w.inModule(u.Elem()); depth > 0 && e != nil && e.Obj().Pkg() == f.Pkg() {
				r = append(r, w.nilable(e, p, n, depth-1)...)
			}
		case *types.Map, *types.Interface, *types.Signature, *types.Chan:
			r = append(r, fieldPath{p, f.Type(), n, f})
		case *types.Struct:
			if _, s := w.inModule(f.Type()); s != nil {
				r = append(r, w.nilable(f.Type(), p, n, depth)...)
			}
		}
	}
	return r
}

// at loads the field at a path.
func (fp fieldPath) at(st *ai.State, recv *ai.Term, t types.Type) *ai.Term {
	addr := recv
	for n, i := range fp.idx {
		s := t.Underlying().(*types.Struct)
		addr = ai.FieldAddr(addr, i)
		t = s.Field(i).Type()
		if n == len(fp.idx)-1 {
			break
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			addr = st.Load(addr, t)
			t = pt.Elem()
		}
	}
	return st.Load(addr, t)
}

// storedElsewhere finds the fields that are assigned other than in an object
// that the same function has allocated.
func (w *World) storedElsewhere() map[*types.Var]bool {
	r := map[*types.Var]bool{}
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || allReads(fa) {
					continue
				}
				base := fa.X
				for {
					if q, ok := base.(*ssa.FieldAddr); ok {
						base = q.X
						continue
					}
					break
				}
				if _, local := base.(*ssa.Alloc); local {
					continue
				}
				// assigning to a field of the field is not assigning the field
				if w.assigned(fa) {
					s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					r[s.Field(fa.Field)] = true
				}
			}
		}
	}
	return r
}

func (w *World) assigned(fa *ssa.FieldAddr) bool {
	for _, u := range *fa.Referrers() {
		switch i := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
		case *ssa.Store:
			if i.Addr == ssa.Value(fa) || i.Val == ssa.Value(fa) {
				return true
			}
		case ssa.CallInstruction: // (a mutex, or the like)
			if _, s := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !s {
				return true
			}
		default:
			return true
		}
	}
	return false
}

type handlerInv struct {
	t     *types.Named
	paths []fieldPath
	keep  []bool
}

// mountView analyses the mount command and everything that the FUSE library
// may call afterwards.
func (c *Check) mountView(setup func(x *ai.Exec)) *View {
	cmd := c.W.commands()["mount"]
	if cmd == nil || cmd.Run == nil {
		c.Fail("mount", "command mount not found")
		return nil
	}
	v := &View{c: c, name: "mount"}
	c.view = v
	changed := c.W.storedElsewhere()
	invs := map[*types.Named]*handlerInv{}
	for _, t := range c.W.handlerTypes() {
		h := &handlerInv{t: t}
		for _, p := range c.W.nilable(t, nil, t.Obj().Name(), 2) {
			if !changed[p.last] {
				h.paths = append(h.paths, p)
				h.keep = append(h.keep, true)
			}
		}
		invs[t] = h
	}
	if len(invs) == 0 {
		c.Fail("mount", "no FUSE nodes found")
		return nil
	}
	// entries of maps: candidates by map type
	ent := c.entryCandidates()
	drop := false
	published := func(st *ai.State, t *ai.Term) bool {
		drop := false
		t.Walk(func(u *ai.Term) bool {
			if u.Op != ai.OIface {
				return true
			}
			pt, ok := u.X.(*types.Pointer)
			if !ok {
				return true
			}
			n, ok := pt.Elem().(*types.Named)
			if !ok || invs[n] == nil {
				return true
			}
			h := invs[n]
			for i, q := range h.paths {
				if !h.keep[i] {
					continue
				}
				f := q.at(st, u.A[0], h.t)
				if !ai.NonNil(f) && st.Facts.Holds(ai.Eq(f, ai.Nil)) >= 0 {
					h.keep[i] = false
					drop = true
					if os.Getenv("DBGVIEW") != "" {
						fmt.Println("drop", q.name, f)
					}
				}
			}
			return true
		})
		return drop
	}
	keep := map[*types.Named][]string{}
	for t, h := range invs {
		for _, q := range c.W.fixedFields(t, "", changed) {
			keep[t] = append(keep[t], q)
		}
		_ = h
	}
	v.onEvent = ent.onEvent
	v.setup = func(x *ai.Exec) {
		x.MapFacts = ent.facts
		x.Shared = true
		x.Keep = func(t types.Type) []string {
			if n, ok := t.(*types.Named); ok {
				return keep[n]
			}
			return nil
		}
		x.OnGive = func(st *ai.State, args []*ai.Term) {
			for _, a := range args {
				if published(st, a) {
					drop = true
				}
				v.publish(v.cur, st, a, fnShort(v.cur.fn), c.pos(v.cur.fn.Pos()))
			}
		}
		// constructors of the library
		for _, n := range []string{"NewDefaultNode", "NewDefaultFile", "NewReadOnlyFile", "NewLoopbackFile", "NewDataFile", "NewDevNullFile"} {
			n := n
			x.Models[nodefsPkg+"."+n] = func(cl *ai.Call) []ai.Outcome {
				x.OnGive(cl.St, cl.Args)
				var as []*ai.Term
				for i, a := range cl.Args {
					var t types.Type
					if i < len(cl.ArgT) {
						t = cl.ArgT[i]
					}
					as = append(as, x.Pack(cl.St, a, t))
				}
				if len(as) == 0 {
					as = append(as, ai.Sym("new", 0, nil))
				}
				v := ai.App("nn:nodefs."+n, 0, as...)
				return cl.Ret(v)
			}
		}
		if setup != nil {
			setup(x)
		}
	}
	roots := []Root{{cmd.Run, func(p *Part) []ai.Outcome { return c.W.runCommand(p.x, p.st, cmd) }}}
	for _, f := range c.W.handlers() {
		f := f
		if o := os.Getenv("ONLY"); o != "" && !strings.Contains(fnShort(f), o) {
			continue
		}
		roots = append(roots, Root{f, func(p *Part) []ai.Outcome {
			p.handler = true
			p.args = p.x.Params(f)
			pt := f.Params[0].Type().(*types.Pointer)
			for i, a := range p.args {
				if _, ok := f.Params[i].Type().Underlying().(*types.Pointer); ok {
					p.x.Assume(p.st, ai.Not(ai.Eq(a, ai.Nil)))
				}
			}
			h := invs[pt.Elem().(*types.Named)]
			for i, q := range h.paths {
				if h.keep[i] {
					p.x.Assume(p.st, ai.Not(ai.Eq(q.at(p.st, p.args[0], h.t), ai.Nil)))
				}
			}
			p.recv = h.t
			p.fields = fieldsOf(p.st, p.args[0], h.t)
			return p.x.Run(f, p.args, p.st)
		}})
	}
	v.run(func() bool {
		d := drop
		drop = false
		for _, p := range v.parts {
			for _, o := range p.outs {
				if p.handler && o.Kind == "return" && o.Ret != nil {
					if published(o.St, o.Ret) {
						d = true
					}
					v.publish(p, o.St, o.Ret, fnShort(p.fn), c.pos(p.fn.Pos()))
				}
			}
		}
		if ent.again() {
			d = true
		}
		return d
	}, roots...)
	return v
}

// entryCands are facts that may hold for all entries of the maps of a type.
type entryCands struct {
	c    *Check
	seen map[string]*entryCand
	upd  map[ssa.Instruction]bool
	drop bool
}

type entryCand struct {
	mt   *types.Map
	keep []bool
}

func (c *Check) entryCandidates() *entryCands {
	return &entryCands{c, map[string]*entryCand{}, map[ssa.Instruction]bool{}, false}
}

// literals are the candidate facts for an entry of a map.
func (e *entryCands) literals(mt *types.Map, k, v *ai.Term) []*ai.Term {
	var r []*ai.Term
	switch mt.Elem().Underlying().(type) {
	case *types.Slice:
		if v.Op != ai.OSlice {
			return nil
		}
		r = append(r, ai.Le(true, ai.I64(1), v.A[2]), ai.Le(true, ai.I64(30), v.A[2]))
		if d := v.A[0]; isStringType(mt.Key()) {
			n := ai.App(btrfsDot+"DirItem.Name", 0, ai.Root(v))
			n.T = mt.Key()
			_ = d
			r = append(r, ai.Eq(k, n))
		}
	case *types.Pointer, *types.Map, *types.Interface:
		r = append(r, ai.Not(ai.Eq(v, ai.Nil)))
	}
	return r
}

func (e *entryCands) of(mt *types.Map) *entryCand {
	n := types.TypeString(mt, nil)
	q := e.seen[n]
	if q == nil {
		q = &entryCand{mt: mt}
		e.seen[n] = q
	}
	return q
}

func (e *entryCands) facts(st *ai.State, mt *types.Map, k, v *ai.Term) []*ai.Term {
	q := e.of(mt)
	var r []*ai.Term
	for i, l := range e.literals(mt, k, v) {
		if i >= len(q.keep) {
			q.keep = append(q.keep, true)
		}
		if q.keep[i] && l != nil {
			r = append(r, l)
		}
	}
	return r
}

// onEvent drops the candidates that an update of a map does not establish.
func (e *entryCands) onEvent(ev *ai.Event) {
	if ev.Kind != "mapupdate" || ev.Args[2] == nil {
		return
	}
	mu, ok := ev.Instr.(*ssa.MapUpdate)
	if !ok {
		return
	}
	e.upd[mu] = true
	mt := mu.Map.Type().Underlying().(*types.Map)
	q := e.of(mt)
	for i, l := range e.literals(mt, ev.Args[1], ev.Args[2]) {
		if i >= len(q.keep) {
			q.keep = append(q.keep, true)
		}
		if q.keep[i] && !(l.Op == ai.ONot && ai.NonNil(ev.Args[2])) && !holds(ev.St, l) {
			q.keep[i] = false
			e.drop = true
		}
	}
}

// again reports whether candidates were dropped since the last time, also those
// for maps that are updated outside of the view.
func (e *entryCands) again() bool {
	for _, f := range e.c.W.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok || e.upd[mu] {
					continue
				}
				q := e.seen[types.TypeString(mu.Map.Type().Underlying().(*types.Map), nil)]
				if q == nil {
					continue
				}
				for i := range q.keep {
					if q.keep[i] {
						q.keep[i] = false
						e.drop = true
					}
				}
			}
		}
	}
	d := e.drop
	e.drop = false
	return d
}

// fixedFields lists the unexported fields that are assigned only in objects
// that are not shared yet.
func (w *World) fixedFields(t types.Type, pre string, changed map[*types.Var]bool) []string {
	_, s := w.inModule(t)
	if s == nil {
		return nil
	}
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := pre + "." + strconv.Itoa(i)
		if _, sub := w.inModule(f.Type()); sub != nil {
			r = append(r, w.fixedFields(f.Type(), p, changed)...)
		} else if (!f.Exported() || f.Embedded()) && !changed[f] {
			r = append(r, p)
		}
	}
	return r
}
