package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// The reading side of the index as the commands and the mounted view use it. A
// range is a finite sequence of items; which items it has is decided by C13, so
// here a range is its bounds and a position:
//
//	rng(base, pos)          the range at a position
//	rngcount(base)          how many items it has
//	rngitem(base, pos)      the item at a position
//	base = (index, owner, first type, first id, first offset, last type, ...)

const (
	btrfsDot = "pkg/btrfs."
	rangeDot = "pkg/btrfs/index.Range"
)

// keyTerm takes a btrfs.Key value apart: type, object id, offset.
func keyTerm(k *ai.Term) []*ai.Term {
	if k == nil || k.Op != ai.OStruct || len(k.A) != 3 {
		return nil
	}
	return []*ai.Term{k.A[1], k.A[0], k.A[2]}
}

func rngBase(c *ai.Term) *ai.Term { return c.A[0] }

// Rng describes a range value.
type Rng struct{ base, pos *ai.Term }

func rngOf(v *ai.Term) *Rng {
	if v == nil || v.Op != ai.OApp || v.S != "rng" {
		return nil
	}
	return &Rng{v.A[0], v.A[1]}
}

func (r *Rng) count() *ai.Term { return ai.App("rngcount", 64, r.base) }
func (r *Rng) has() *ai.Term   { return ai.Lt(true, r.pos, r.count()) }

// full tells whether the range is the whole index.
func (r *Rng) full() bool { return len(r.base.A) == 1 }

// prefix is how many leading components (type, id, offset) all keys share.
func rngPrefix(base *ai.Term) int {
	n := 0
	for n < 3 && len(base.A) == 8 && base.A[2+n] == base.A[5+n] {
		n++
	}
	return n
}

// itemTerm is the item at the position of a range.
func (r *Rng) item(x *ai.Exec, t types.Type) *ai.Term {
	it := ai.App("rngitem", 0, r.base, r.pos)
	if it.T == nil {
		it.T = t
	}
	return x.SliceOf(it)
}

// key is the key at the position of a range.
func (r *Rng) key(x *ai.Exec, kt types.Type) *ai.Term {
	n := 0
	if !r.full() {
		n = rngPrefix(r.base)
	}
	names := []string{"rngtype", "rngid", "rngoff"}
	order := []int{1, 0, 2} // fields of Key: id, type, offset
	f := make([]*ai.Term, 3)
	st := kt.Underlying().(*types.Struct)
	for i, c := range order {
		if c < n {
			f[i] = r.base.A[2+c]
		} else {
			f[i] = x.Val(names[c], st.Field(i).Type(), r.base, r.pos)
		}
	}
	return ai.Struct(f...)
}

// minimal lengths of well-formed item data by key type (index.wellFormed)
var wellFormedLen = map[uint64]int64{1: 160, 24: 30, 84: 30, 96: 30, 228: 80, 108: 21}

const itemData = "pkg/btrfs.Item.Data"

// dataOf is the data of an item.
func (c *Check) dataOf(x *ai.Exec, st *ai.State, item *ai.Term) *ai.Term {
	if item.Op == ai.OSlice && item.A[4].True() {
		return ai.NilSlice
	}
	bt := types.NewSlice(types.Typ[types.Byte])
	d := ai.App(itemData, 0, x.Pack(st, item, item.T))
	if d.T == nil {
		d.T = bt
	}
	return x.SliceOf(d)
}

// readAPI describes the reading side of the index.
func (c *Check) readAPI() map[string]ai.Model {
	m := writeAPI()
	rt := c.namedType(indexPkg, "Range")
	ft := c.namedType(indexPkg, "FullRange")
	kt := c.namedType(btrfsPkg, "Key")
	it := c.namedType(btrfsPkg, "Item")
	if rt == nil || kt == nil || it == nil {
		c.Fail("index", "types of the index API not found")
		return m
	}
	mk := func(base, pos *ai.Term) *ai.Term {
		v := ai.App("rng", 0, base, pos)
		v.T = rt
		return v
	}
	load := func(cl *ai.Call) *Rng {
		p := cl.Args[0]
		if !ai.NonNil(p) {
			cl.Need("nil", ai.Not(ai.Eq(p, ai.Nil)))
		}
		return rngOf(cl.St.Load(p, rt))
	}
	data := func(x *ai.Exec, st *ai.State, r *Rng) *ai.Term { return c.dataOf(x, st, r.item(x, it)) }
	m[ixT+"Range"] = func(cl *ai.Call) []ai.Outcome {
		a, b := keyTerm(cl.Args[2]), keyTerm(cl.Args[3])
		if a == nil || b == nil {
			return nil
		}
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		base := ai.App("range", 0, append(append([]*ai.Term{cl.Args[0], cl.Args[1]}, a...), b...)...)
		r := &Rng{base, ai.I64(0)}
		cl.X.Assume(cl.St, ai.Le(true, ai.I64(0), r.count()))
		cl.Event(cl.St, "range", cl.Name, []*ai.Term{base}, nil)
		return cl.Quiet(ai.Tuple(mk(base, r.pos), data(cl.X, cl.St, r)))
	}
	has := func(cl *ai.Call) []ai.Outcome {
		r := load(cl)
		if r == nil {
			return nil
		}
		return cl.Quiet(r.has())
	}
	next := func(cl *ai.Call) []ai.Outcome {
		r := load(cl)
		if r == nil {
			return nil
		}
		cl.Need("range", r.has())
		n := &Rng{r.base, ai.AddK(r.pos, 1)}
		cl.St.Store(cl.Args[0], mk(n.base, n.pos), rt)
		cl.Event(cl.St, "rangenext", cl.Name, []*ai.Term{r.base, n.pos}, nil)
		return cl.Quiet(data(cl.X, cl.St, n))
	}
	m["(*"+rangeDot+").HasNext"] = has
	m["(*"+rangeDot+").Next"] = next
	m["(*"+rangeDot+").Index"] = func(cl *ai.Call) []ai.Outcome {
		if r := load(cl); r != nil {
			return cl.Quiet(r.base.A[0])
		}
		return nil
	}
	m["(*"+rangeDot+").Owner"] = func(cl *ai.Call) []ai.Outcome {
		r := load(cl)
		if r == nil {
			return nil
		}
		cl.Need("range", r.has())
		if !r.full() {
			return cl.Quiet(r.base.A[1])
		}
		return cl.Quiet(cl.X.Val("rngowner", cl.Sig.Results().At(0).Type(), r.base, r.pos))
	}
	m["(*"+rangeDot+").Key"] = func(cl *ai.Call) []ai.Outcome {
		r := load(cl)
		if r == nil {
			return nil
		}
		cl.Need("range", r.has())
		return cl.Quiet(r.key(cl.X, kt))
	}
	m["(*"+rangeDot+").Generation"] = func(cl *ai.Call) []ai.Outcome {
		r := load(cl)
		if r == nil {
			return nil
		}
		cl.Need("range", r.has())
		return cl.Quiet(cl.X.Val("rnggen", cl.Sig.Results().At(0).Type(), r.base, r.pos))
	}
	m["(*"+rangeDot+").Item"] = func(cl *ai.Call) []ai.Outcome {
		if r := load(cl); r != nil {
			return cl.Quiet(r.item(cl.X, it))
		}
		return nil
	}
	if ft != nil {
		m[ixT+"FullRange"] = func(cl *ai.Call) []ai.Outcome {
			cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
			s, ok := ft.Underlying().(*types.Struct)
			if !ok || s.NumFields() != 1 {
				return nil
			}
			base := ai.App("range", 0, cl.Args[0])
			r := &Rng{base, ai.I64(0)}
			cl.X.Assume(cl.St, ai.Le(true, ai.I64(0), r.count()))
			cl.Event(cl.St, "range", cl.Name, []*ai.Term{base}, nil)
			return cl.Quiet(ai.Tuple(ai.Struct(mk(base, r.pos)), data(cl.X, cl.St, r)))
		}
		emb := func(g ai.Model) ai.Model {
			return func(cl *ai.Call) []ai.Outcome {
				q := *cl
				q.Args = append([]*ai.Term{ai.FieldAddr(cl.Args[0], 0)}, cl.Args[1:]...)
				return g(&q)
			}
		}
		m["(*"+indexDot+"FullRange).HasNext"] = emb(has)
		m["(*"+indexDot+"FullRange).Next"] = emb(next)
	}
	m[ixT+"FindItem"] = func(cl *ai.Call) []ai.Outcome {
		k := keyTerm(cl.Args[2])
		if k == nil {
			return nil
		}
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		i := ai.App("item", 0, append([]*ai.Term{cl.Args[0], cl.Args[1]}, k...)...)
		i.T = it
		cl.Event(cl.St, "find", cl.Name, []*ai.Term{i}, nil)
		return cl.Quiet(cl.X.SliceOf(i))
	}
	m[ixT+"FindDirItemForPath"] = func(cl *ai.Call) []ai.Outcome { // see C32
		if len(cl.Args) != 3 || cl.Sig.Results().Len() != 2 {
			return nil
		}
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		r := cl.Sig.Results()
		i := ai.App("pathitem", 0, cl.Args...)
		i.T = r.At(0).Type()
		d := cl.X.SliceOf(i)
		o := cl.X.Val("pathowner", r.At(1).Type(), cl.Args...)
		none := cl.St.Clone()
		cl.X.Assume(cl.St, ai.Le(true, ai.I64(30), d.A[2]))
		cl.X.Assume(cl.St, ai.Not(d.A[4]))
		return []ai.Outcome{{Kind: "return", St: cl.St, Ret: ai.Tuple(d, o)}, {Kind: "return", St: none, Ret: ai.Tuple(ai.NilSlice, ai.I64(0))}}
	}
	m[ixT+"Physical"] = func(cl *ai.Call) []ai.Outcome {
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		r := cl.Sig.Results()
		var vs []*ai.Term
		for i := 0; i < r.Len(); i++ {
			vs = append(vs, cl.X.Val([]string{"physdev", "physoff", "physok"}[i], r.At(i).Type(), cl.Args[0], cl.Args[1]))
		}
		if ok := vs[r.Len()-1]; onPhysical != nil && !ok.IsConst() {
			none := cl.St.Clone()
			cl.X.Assume(cl.St, ok)
			cl.X.Assume(none, ai.Not(ok))
			onPhysical(cl, none, ok)
			return []ai.Outcome{{Kind: "return", St: cl.St, Ret: ai.Tuple(vs...)}, {Kind: "return", St: none, Ret: ai.Tuple(vs...)}}
		}
		return cl.Quiet(ai.Tuple(vs...))
	}
	return m
}

// onPhysical is told about every mapping of an address that fails.
var onPhysical func(cl *ai.Call, st *ai.State, ok *ai.Term)

const indexDot = "pkg/btrfs/index."

// rangeFacts are the facts that follow from a range having an item at its
// position: the data of the item is well formed.
func rangeFacts(x *ai.Exec) func(l *ai.Term) []*ai.Term {
	return func(l *ai.Term) []*ai.Term {
		if t := notInline(l); t != nil {
			return []*ai.Term{ai.Le(true, ai.I64(53), ai.App("len", 64, t))}
		}
		lo, hi, strict, ok := ai.Less(l)
		if !ok || !strict || hi.Op != ai.OApp || hi.S != "rngcount" {
			return nil
		}
		base := hi.A[0]
		if len(base.A) != 8 || rngPrefix(base) < 1 || base.A[2].Op != ai.OInt {
			return nil
		}
		t := base.A[2].K
		n, ok := wellFormedLen[t]
		if !ok {
			return nil
		}
		d := ai.App(itemData, 0, ai.App("rngitem", 0, base, lo))
		fs := []*ai.Term{ai.Le(true, ai.I64(n), ai.App("len", 64, d))}
		return fs
	}
}

// notInline recognises that the extent of an item is known not to be inline;
// items of a range with that little data would not be well formed.
func notInline(l *ai.Term) *ai.Term {
	pos := true
	if l.Op == ai.ONot {
		pos, l = false, l.A[0]
	}
	if l.Op != ai.OEq {
		return nil
	}
	for i := 0; i < 2; i++ {
		t, k := l.A[i], l.A[1-i]
		if t.Op == ai.OApp && t.S == "pkg/btrfs.FileExtentItem.Type" && k.Op == ai.OInt && pos == (k.K != 0) {
			d := t.A[0]
			if d.Op == ai.OApp && d.S == itemData && d.A[0].Op == ai.OApp && d.A[0].S == "rngitem" {
				b := d.A[0].A[0]
				if len(b.A) == 8 && rngPrefix(b) >= 1 && b.A[2].Op == ai.OInt && b.A[2].K == 108 {
					return d
				}
			}
		}
	}
	return nil
}

// accessors keeps the accessors of stored items as pure functions of the item,
// demanding what they need of its length.
func (c *Check) accessors() func(fn *ssa.Function) ai.Model {
	return func(fn *ssa.Function) ai.Model {
		n, ok := c.accessorNeeds(fn)
		if !ok {
			return nil
		}
		name := fnShort(fn)
		name = strings.NewReplacer("(", "", ")", "", "*", "").Replace(name)
		return func(cl *ai.Call) []ai.Outcome {
			a := cl.Args[0]
			if a.Op != ai.OSlice {
				return nil
			}
			if name == itemData {
				return cl.Quiet(c.dataOf(cl.X, cl.St, a))
			}
			if n > 0 {
				cl.Need("index", ai.Le(true, ai.I64(n), a.A[2]))
			}
			rt := cl.Sig.Results().At(0).Type()
			v := cl.X.Val(name, rt, cl.X.Pack(cl.St, a, a.T))
			if isStringType(rt) {
				l := ai.StrLen(v)
				cl.X.Assume(cl.St, ai.Le(true, ai.I64(0), l))
				cl.X.Assume(cl.St, ai.Le(true, l, ai.I64(65536)))
			}
			return cl.Quiet(v)
		}
	}
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

type need struct {
	n  int64
	ok bool
}

var needMemo = map[*ssa.Function]need{}

// accessorNeeds finds the smallest length of its receiver with which an
// accessor of a stored item cannot fail. Composite predicates are not kept.
func (c *Check) accessorNeeds(fn *ssa.Function) (int64, bool) {
	if r, ok := needMemo[fn]; ok {
		return r.n, r.ok
	}
	r := need{}
	r.ok = c.isAccessor(fn)
	if r.ok {
		try := func(n int64) bool {
			x, st := c.W.Exec()
			good := true
			x.OnOb = func(o *ai.Ob) { good = good && o.OK }
			args := x.Params(fn)
			x.Assume(st, ai.Le(true, ai.I64(n), args[0].A[2]))
			for _, o := range x.Run(fn, args, st) {
				good = good && o.Kind == "return"
			}
			c.Errs(x, fnShort(fn))
			return good
		}
		lo, hi := int64(0), int64(512)
		if !try(hi) {
			r.ok = false
		}
		for r.ok && lo < hi {
			if m := (lo + hi) / 2; try(m) {
				hi = m
			} else {
				lo = m + 1
			}
		}
		r.n = lo
	}
	needMemo[fn] = r
	return r.n, r.ok
}

func (c *Check) isAccessor(fn *ssa.Function) bool {
	o, ok := fn.Object().(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != module+"/"+btrfsPkg || len(fn.Blocks) == 0 {
		return false
	}
	sig := fn.Signature
	if sig.Recv() == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	if fnShort(fn) == "("+itemData[:strings.LastIndexByte(itemData, '.')]+").Data" {
		return true
	}
	s, ok := sig.Recv().Type().Underlying().(*types.Slice)
	if !ok || !types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8]) {
		return false
	}
	rt := sig.Results().At(0).Type()
	if b, ok := rt.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return false // predicates are composed of fields
		}
		return true
	}
	switch rt.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// both combines ways to keep functions.
func both(as ...func(fn *ssa.Function) ai.Model) func(fn *ssa.Function) ai.Model {
	return func(fn *ssa.Function) ai.Model {
		for _, a := range as {
			if m := a(fn); m != nil {
				return m
			}
		}
		return nil
	}
}

// View is the analysis of code that reads an index: of the code itself and of
// every recursive function it uses. Those are analysed for any arguments with
// the properties that all their calls have.
type View struct {
	c     *Check
	name  string
	parts []*Part
	setup func(x *ai.Exec)           // further models
	api   func() map[string]ai.Model // what is not followed, readAPI if nil

	onEvent func(e *ai.Event)

	cur       *Part    // the part being analysed
	published []pubRec // objects handed to the FUSE library
}

// Part is the analysis of one function.
type Part struct {
	v       *View
	x       *ai.Exec
	st      *ai.State
	fn      *ssa.Function
	args    []*ai.Term
	outs    []ai.Outcome
	loops   []*ai.LoopRun
	obs     []*ai.Ob
	evs     []*ai.Event // calls of recursive functions
	all     []*ai.Event // all events, in no particular order
	rec     bool        // a recursive function on any arguments
	handler bool        // called by the FUSE library
	recv    *types.Named
	fields  []*ai.Term                          // fields of the receiver of a handler
	elems   map[*ai.Event][]*ai.Term            // what appends add
	vers    map[*ai.Event]map[*ai.Term]*ai.Term // contents of maps
}

func (v *View) part(fn *ssa.Function) *Part {
	c := v.c
	p := &Part{v: v, fn: fn, elems: map[*ai.Event][]*ai.Term{}, vers: map[*ai.Event]map[*ai.Term]*ai.Term{}}
	v.cur = p
	p.x, p.st = c.W.Exec()
	p.x.RecPaths = 16
	p.x.OpaqueTypes[module+"/"+indexPkg+".Range"] = true
	p.x.Anchor = both(anchors(c.readAPI()), c.accessors())
	if v.api != nil {
		p.x.Anchor = anchors(v.api())
	}
	p.x.OnAssume = rangeFacts(p.x)
	p.x.Cut = func(f *ssa.Function) bool { return c.W.recursive()[f] }
	p.x.OnLoop = func(l *ai.LoopRun) { p.loops = append(p.loops, l) }
	p.x.OnOb = func(o *ai.Ob) { p.obs = append(p.obs, o) }
	p.x.OnEvent = func(e *ai.Event) {
		p.all = append(p.all, e)
		switch e.Kind {
		case "append":
			p.elems[e] = appended(e)
		case "mapupdate", "recurse":
			m := map[*ai.Term]*ai.Term{}
			for _, a := range e.Args {
				argLeaves(a, func(t *ai.Term) { m[t] = e.St.MapVer(t) })
				if e.Kind == "mapupdate" {
					break
				}
			}
			p.vers[e] = m
		}
		if v.onEvent != nil {
			v.onEvent(e)
		}
		if c.onEvent != nil {
			c.onEvent(p.x, e)
		}
		if e.Kind == "recurse" {
			p.evs = append(p.evs, e)
		}
	}
	if v.setup != nil {
		v.setup(p.x)
	}
	return p
}

// recursive finds the functions that may call themselves.
func (w *World) recursive() map[*ssa.Function]bool {
	if w.rec != nil {
		return w.rec
	}
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		m := map[*ssa.Function]bool{}
		for _, a := range f.AnonFuncs {
			m[a] = true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						m[g] = true
					}
				}
			}
		}
		succ[f] = m
	}
	w.rec = map[*ssa.Function]bool{}
	for f := range succ {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for h := range succ[g] {
				if !seen[h] {
					seen[h] = true
					visit(h)
				}
			}
		}
		visit(f)
		if seen[f] && f.Parent() == nil {
			w.rec[f] = true
		}
	}
	return w.rec
}

// Root is a function that a view starts from.
type Root struct {
	fn    *ssa.Function
	start func(p *Part) []ai.Outcome
}

// run analyses what the roots analyse and the recursive functions called,
// until what is assumed of all calls holds at all of them.
func (v *View) run(more func() bool, roots ...Root) {
	pre := map[*ssa.Function][]bool{} // parameters that are never nil
	for round := 0; ; round++ {
		v.parts, v.published = nil, nil
		for _, r := range roots {
			p := v.part(r.fn)
			p.outs = r.start(p)
			v.parts = append(v.parts, p)
		}
		done := map[*ssa.Function]bool{}
		again := false
		for i := 0; i < len(v.parts); i++ {
			for _, e := range v.parts[i].evs {
				f := e.Instr.(ssa.CallInstruction).Common().StaticCallee()
				if f == nil {
					v.c.Fail(v.name, "recursive call of an unknown function")
					continue
				}
				if pre[f] == nil {
					for _, q := range f.Params {
						switch q.Type().Underlying().(type) {
						case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
							pre[f] = append(pre[f], true)
						default:
							pre[f] = append(pre[f], false)
						}
					}
				}
				for k, want := range pre[f] {
					if want && !ai.NonNil(e.Args[k]) && e.Facts.Holds(ai.Eq(e.Args[k], ai.Nil)) >= 0 {
						pre[f][k] = false
						again = again || done[f]
					}
				}
				if !done[f] {
					done[f] = true
					p := v.part(f)
					p.rec = true
					p.args = p.x.Params(f)
					for k, want := range pre[f] {
						if want {
							p.x.Assume(p.st, ai.Not(ai.Eq(p.args[k], ai.Nil)))
						}
					}
					p.outs = p.x.Run(f, p.args, p.st)
					v.parts = append(v.parts, p)
				}
			}
		}
		if more != nil && more() {
			again = true
		}
		if !again || round > 12 {
			if again {
				v.c.Fail(v.name, "what the calls have in common was not found")
			}
			break
		}
	}
	for _, p := range v.parts {
		v.c.Counts["paths"] += len(p.outs)
		v.c.Counts["steps"] += p.x.Steps
		v.c.saw(p.fn)
		v.c.Errs(p.x, v.name)
	}
}

// viewCommand analyses a command.
func (c *Check) viewCommand(name string, setup func(x *ai.Exec)) *View {
	cmd := c.W.commands()[name]
	if cmd == nil || cmd.Run == nil {
		c.Fail(name, "command %s not found", name)
		return nil
	}
	v := &View{c: c, name: name, setup: setup}
	v.run(nil, Root{cmd.Run, func(p *Part) []ai.Outcome { return c.W.runCommand(p.x, p.st, cmd) }})
	return v
}

// viewCommandWith analyses a command, showing its start first.
func (c *Check) viewCommandWith(name string, start func(p *Part, args []*ai.Term)) *View {
	cmd := c.W.commands()[name]
	if cmd == nil || cmd.Run == nil {
		c.Fail(name, "command %s not found", name)
		return nil
	}
	v := &View{c: c, name: name}
	v.run(nil, Root{cmd.Run, func(p *Part) []ai.Outcome {
		return c.W.runCommandWith(p.x, p.st, cmd, func(args []*ai.Term) {
			p.args = args
			if start != nil {
				start(p, args)
			}
		})
	}})
	return v
}
