package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec runs the abstract interpretation.
type Exec struct {
	Seen       map[*ssa.Function]bool // functions interpreted
	InitEvents bool                   // report what package initialisation does
	Prog       *ssa.Program
	Module     string // module path: functions of these packages are inlined
	Models     map[string]Model
	// OpaqueTypes are named types whose values are not taken apart.
	OpaqueTypes map[string]bool
	// Anchor decides whether an in-module function is kept as an API call.
	Anchor  func(fn *ssa.Function) Model
	OnEvent func(ev *Event)
	OnBack  func(l *LoopRun, back *Path)
	OnOb    func(o *Ob)
	OnLoop  func(l *LoopRun)
	OnMem   func(ev *Event)
	// HasNextFacts and OnAssume give facts implied by an assumed literal.
	HasNextFacts func(l *Term) []*Term
	OnAssume     func(l *Term) []*Term
	Candidates   func(fr *Frame, st *State, syms []*Term, init map[*Term]*Term) []*Term
	onHas        map[*Term][]*Term
	getHas       map[*Term]*Term
	nilHas       map[*Term]*Term // a value that is not nil is in the map
	SkipInit     bool
	Forget       func(base *Term, name string) bool // what is attached to an object is forgotten in loops
	// SplitNil keeps iterations that end in nil slices and leave the loop apart,
	// and looks at a loop once for all paths that reach it.
	SplitNil  bool
	MergeOver int // join paths with equal memory if there are more
	// NonNilValues tells of map types whose pointer values are never nil.
	NonNilValues func(mt *types.Map) bool
	// Keep lists the fields of a type (".1.0") that no code assigns once an
	// object is shared.
	Keep func(t types.Type) []string
	// OnGive sees the arguments of calls of other modules' functions.
	OnGive func(st *State, args []*Term)
	// Shared tells that objects with locks are changed by others while the
	// lock is not held.
	Shared bool
	// MapFacts tells what holds for all entries of the maps of a type.
	MapFacts func(st *State, mt *types.Map, k, v *Term) []*Term
	inInit   *ssa.Function

	rec      int // recording when 0
	loops    map[*ssa.Function]*loopInfo
	stack    []*ssa.Function
	frames   []*Frame
	initS    *State
	Steps    int
	MaxStep  int
	valIDs   map[ssa.Value]uint64
	RecPaths int                         // paths kept apart while a fixpoint is sought
	Cut      func(fn *ssa.Function) bool // functions that are analysed on their own
	nev      int
	Err      []string // analysis failures (make the check fail)
	globals  map[*ssa.Global]bool
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	mark     uint64
}

type Frame struct {
	Fn     *ssa.Function
	Parent *Frame
	Ctx    string
	bind   []*Term
}

type Path struct {
	St     *State
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	start  bool
	defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	ins  *ssa.Defer
	fn   *Term
	args []*Term
}

type Outcome struct {
	Kind string // return, exit, panic
	St   *State
	Ret  *Term
}

// Call is what a model sees.
type Call struct {
	X     *Exec
	St    *State
	Name  string
	Fn    *ssa.Function // static callee if any
	Sig   *types.Signature
	Args  []*Term // receiver first
	ArgT  []types.Type
	Instr ssa.Instruction
	Frame *Frame
}

// Model returns the possible results. A nil slice means "not modelled".
type Model func(c *Call) []Outcome

// Ob is a proof obligation at an instruction.
type Ob struct {
	Kind  string
	Fn    *ssa.Function
	Instr ssa.Instruction
	Goal  *Term
	OK    bool
	St    *State
	Stack []*ssa.Function
}

func (p *Path) fork() *Path {
	e := make(map[ssa.Value]*Term, len(p.env)+4)
	for k, v := range p.env {
		e[k] = v
	}
	return &Path{St: p.St.Clone(), env: e, block: p.block, prev: p.prev, idx: p.idx, defers: p.defers}
}

func (x *Exec) fail(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for _, e := range x.Err {
		if e == s {
			return
		}
	}
	x.Err = append(x.Err, s)
}

func (x *Exec) Opaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && len(x.OpaqueTypes) > 0 {
		o := n.Obj()
		if o.Pkg() != nil {
			return x.OpaqueTypes[o.Pkg().Path()+"."+o.Name()]
		}
	}
	return false
}

func (x *Exec) InModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			p := f.Pkg.Pkg.Path()
			return p == x.Module || strings.HasPrefix(p, x.Module+"/")
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			p := f.Object().Pkg().Path()
			return p == x.Module || strings.HasPrefix(p, x.Module+"/")
		}
	}
	if fn.Synthetic != "" { // wrappers, bound methods
		return true
	}
	return false
}

// Recording tells whether events count (final pass).
func (x *Exec) Recording() bool { return x.rec == 0 }

// Run interprets fn from a state with given arguments.
func (x *Exec) Run(fn *ssa.Function, args []*Term, st *State) []Outcome {
	x.loopsInit()
	return x.runFn(fn, args, nil, st, nil, "")
}

func (x *Exec) loopsInit() {
	if x.loops == nil {
		x.loops = map[*ssa.Function]*loopInfo{}
	}
}

// Params makes symbolic arguments for a function.
func (x *Exec) Params(fn *ssa.Function) []*Term {
	var a []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" {
			n = fmt.Sprintf("arg%d", i)
		}
		t := x.Fresh(n, p.Type())
		if t.T == nil {
			t.T = p.Type()
		}
		a = append(a, t)
	}
	return a
}

func (x *Exec) runFn(fn *ssa.Function, args, bind []*Term, st *State, parent *Frame, ctx string) []Outcome {
	if len(fn.Blocks) == 0 {
		x.fail("no body: %s", fn)
		return nil
	}
	if x.Seen == nil {
		x.Seen = map[*ssa.Function]bool{}
	}
	x.Seen[fn] = true
	fr := &Frame{Fn: fn, Parent: parent, Ctx: ctx, bind: bind}
	p := &Path{St: st, env: map[ssa.Value]*Term{}, block: fn.Blocks[0]}
	for i, prm := range fn.Params {
		if i < len(args) {
			p.env[prm] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			p.env[fv] = bind[i]
		}
	}
	x.stack = append(x.stack, fn)
	x.frames = append(x.frames, fr)
	_, _, outs := x.run(fr, []*Path{p}, nil)
	x.stack = x.stack[:len(x.stack)-1]
	x.frames = x.frames[:len(x.frames)-1]
	return x.mergeOutcomes(outs)
}

func (x *Exec) run(fr *Frame, init []*Path, loop *Loop) (backs, exits []*Path, outs []Outcome) {
	li := x.loopsOf(fr.Fn)
	work := append([]*Path(nil), init...)
	for len(work) > 0 {
		// take the path at the earliest block in reverse postorder
		bi := 0
		for i, p := range work {
			if li.rpo[p.block] <= li.rpo[work[bi].block] {
				bi = i
			}
		}
		if len(work) > x.maxPaths() {
			work = x.mergePaths(fr, work)
			if len(work) > 2400 {
				x.fail("too many paths in %s", fr.Fn)
				return
			}
			bi = 0
			for i, p := range work {
				if li.rpo[p.block] <= li.rpo[work[bi].block] {
					bi = i
				}
			}
		}
		p := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		if p.idx == 0 && !p.start {
			b := p.block
			if loop != nil {
				if b == loop.header {
					backs = append(backs, p)
					continue
				}
				if !loop.blocks[b] {
					exits = append(exits, p)
					continue
				}
			}
			if l := li.head[b]; l != nil && l != loop {
				var more []*Path
				if x.SplitNil {
					more, work = x.sameEntry(fr, p, work, l)
				}
				ex, os := x.doLoop(fr, p, l, more...)
				outs = append(outs, os...)
				work = append(work, ex...)
				continue
			}
			x.phis(fr, p)
		}
		p.start = false
		next, os := x.block(fr, p)
		outs = append(outs, os...)
		work = append(work, next...)
		if x.Steps > x.MaxStep && x.MaxStep > 0 {
			x.fail("step limit reached in %s", fr.Fn)
			return
		}
	}
	return
}

func (x *Exec) maxPaths() int {
	if x.rec > 0 {
		return x.RecPaths
	}
	return 400
}

// phis evaluates the phi nodes of the block just entered.
func (x *Exec) phis(fr *Frame, p *Path) {
	var vals []*Term
	n := 0
	for _, ins := range p.block.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, pr := range p.block.Preds {
			if pr == p.prev {
				vals = append(vals, x.val(fr, p, phi.Edges[i]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		p.env[p.block.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	p.idx = n
}

func (x *Exec) phiVals(fr *Frame, p *Path, h *ssa.BasicBlock) []*Term {
	var vals []*Term
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range h.Preds {
			if pr == p.prev {
				vals = append(vals, x.val(fr, p, phi.Edges[i]))
				break
			}
		}
	}
	return vals
}

// block executes until control leaves the block or the path forks.
func (x *Exec) block(fr *Frame, p *Path) (next []*Path, outs []Outcome) {
	for p.idx < len(p.block.Instrs) {
		ins := p.block.Instrs[p.idx]
		p.idx++
		x.Steps++
		switch i := ins.(type) {
		case *ssa.Jump:
			p.prev, p.block, p.idx = p.block, p.block.Succs[0], 0
			return []*Path{p}, outs
		case *ssa.If:
			c := x.val(fr, p, i.Cond)
			b := p.block
			switch p.St.Facts.Holds(c) {
			case 1:
				p.prev, p.block, p.idx = b, b.Succs[0], 0
				return []*Path{p}, outs
			case -1:
				p.prev, p.block, p.idx = b, b.Succs[1], 0
				return []*Path{p}, outs
			}
			q := p.fork()
			x.Assume(p.St, c)
			x.Assume(q.St, Not(c))
			p.prev, p.block, p.idx = b, b.Succs[0], 0
			q.prev, q.block, q.idx = b, b.Succs[1], 0
			return []*Path{p, q}, outs
		case *ssa.Return:
			var rs []*Term
			for _, r := range i.Results {
				rs = append(rs, x.val(fr, p, r))
			}
			var ret *Term
			if len(rs) == 1 {
				ret = rs[0]
			} else {
				ret = Tuple(rs...)
			}
			return nil, append(outs, Outcome{"return", p.St, ret})
		case *ssa.Panic:
			x.need(fr, p.St, "panic", ins, Bool(false))
			return nil, append(outs, Outcome{"panic", p.St, nil})
		case *ssa.RunDefers:
			ps := []*Path{p}
			for len(p.defers) > 0 {
				var nps []*Path
				for _, q := range ps {
					d := q.defers[len(q.defers)-1]
					q.defers = q.defers[:len(q.defers)-1]
					rs := x.call(fr, q, d.ins, d.call, d.fn, d.args)
					for k, r := range rs {
						if r.Kind != "return" {
							outs = append(outs, r)
							continue
						}
						t := q
						if k < len(rs)-1 {
							t = q.forkEnv()
						}
						t.St = r.St
						nps = append(nps, t)
					}
				}
				ps = nps
				if len(ps) == 0 {
					return nil, outs
				}
				p = ps[0]
			}
			if len(ps) == 1 {
				p = ps[0]
				continue
			}
			return ps, outs
		case *ssa.Defer:
			fn, args := x.callArgs(fr, p, &i.Call)
			p.defers = append(p.defers[:len(p.defers):len(p.defers)], deferred{&i.Call, i, fn, args})
		case *ssa.Call:
			fn, args := x.callArgs(fr, p, &i.Call)
			rs := x.call(fr, p, i, &i.Call, fn, args)
			var cont []Outcome
			for _, r := range rs {
				if r.Kind != "return" {
					outs = append(outs, r)
				} else {
					cont = append(cont, r)
				}
			}
			if len(cont) == 0 {
				return nil, outs
			}
			if len(cont) == 1 {
				p.St = cont[0].St
				p.env[i] = cont[0].Ret
				continue
			}
			for _, r := range cont {
				q := p.forkEnv()
				q.St = r.St
				q.env[i] = r.Ret
				next = append(next, q)
			}
			return next, outs
		case *ssa.Go:
			fn, args := x.callArgs(fr, p, &i.Call)
			x.event(fr, p.St, "go", x.calleeName(&i.Call, fn), args, nil, ins)
		case *ssa.Next:
			qs := x.next(fr, p, i)
			if len(qs) == 1 {
				p = qs[0]
				continue
			}
			return qs, outs
		case *ssa.TypeAssert:
			qs, o := x.typeAssert(fr, p, i)
			outs = append(outs, o...)
			if len(qs) == 1 {
				p = qs[0]
				continue
			}
			return qs, outs
		case *ssa.Select:
			v := x.Fresh("select", i.Type())
			p.env[i] = v
		default:
			x.simple(fr, p, ins)
		}
	}
	x.fail("fell off block in %s", fr.Fn)
	return nil, outs
}

func (p *Path) forkEnv() *Path {
	e := make(map[ssa.Value]*Term, len(p.env)+4)
	for k, v := range p.env {
		e[k] = v
	}
	return &Path{St: p.St, env: e, block: p.block, prev: p.prev, idx: p.idx, defers: p.defers}
}

// Assume adds a fact.
func (x *Exec) Assume(st *State, l *Term) {
	f := st.Facts
	add := func(t *Term) { f = f.Add(t) }
	var rec func(l *Term)
	rec = func(l *Term) {
		add(l)
		switch {
		case l.Op == OApp && l.S == "isnil":
			add(Eq(App("len", 64, l.A[0]), I64(0)))
		case l.Op == OEq && l.A[0].W == 0:
			a, b := l.A[0], l.A[1]
			if a.Op == OStruct && b.Op == OStruct && len(a.A) == len(b.A) && len(a.A) <= 40 {
				for i := range a.A {
					e := Eq(a.A[i], b.A[i])
					if !e.IsConst() {
						rec(e)
					}
				}
			}
			if a.Op == OStr {
				a, b = b, a
			}
			if b.Op == OStr && StrLen(a) != StrLen(b) {
				add(Eq(StrLen(a), StrLen(b)))
			} else if isStrTerm(a) && isStrTerm(b) && StrLen(a) != StrLen(b) {
				add(Eq(StrLen(a), StrLen(b)))
			}
		case l.Op == ONot && l.A[0].Op == OEq:
			a, b := l.A[0].A[0], l.A[0].A[1]
			if a.Op == OStr {
				a, b = b, a
			}
			if b.Op == OStr && b.S == "" {
				add(Lt(true, I64(0), StrLen(a)))
			}
			if c := lenOfStr(a); c != nil && b.W > 0 && b.Op == OInt && b.K == 0 {
				add(Not(Eq(c, Str(""))))
			}
		case l.Op == OApp && l.S == "maphas" && x.onHas[l] != nil:
			for _, t := range x.onHas[l] {
				if !f.Has(t) {
					rec(t)
				}
			}
		case l.Op == OApp && l.S == "hasnext" && x.HasNextFacts != nil:
			for _, t := range x.HasNextFacts(l) {
				add(t)
			}
		}
		if l.Op == OEq && l.A[0].W > 0 {
			a, b := l.A[0], l.A[1]
			if a.Op == OInt {
				a, b = b, a
			}
			if c := lenOfStr(a); c != nil && b.Op == OInt && b.K == 0 {
				add(Eq(c, Str("")))
			}
		}
		if l.Op == ONot && len(x.nilHas) > 0 {
			if has := x.nilHas[l.A[0]]; has != nil && !f.Has(has) {
				rec(has)
			}
		}
		if len(x.getHas) > 0 {
			if q, neg := l, l.Op == ONot; true {
				if neg {
					q = l.A[0]
				}
				if q.Op == OEq && (q.A[0] == Nil || q.A[1] == Nil) {
					v := q.A[0]
					if v == Nil {
						v = q.A[1]
					}
					if has := x.getHas[v]; has != nil {
						if !neg {
							has = Not(has)
						}
						if !f.Has(has) {
							rec(has)
						}
					}
				}
			}
		}
		if x.OnAssume != nil {
			for _, t := range x.OnAssume(l) {
				if !f.Has(t) {
					rec(t)
				}
			}
		}
	}
	rec(l)
	st.Facts = f
}

func lenOfStr(t *Term) *Term {
	if t.Op == OApp && t.S == "len" && t.A[0].T != nil && isString(t.A[0].T) {
		return t.A[0]
	}
	return nil
}

func isStrTerm(t *Term) bool {
	if t.Op == OStr || t.Op == OApp && (t.S == "strb" || t.S == "cat") {
		return true
	}
	return t.T != nil && isString(t.T)
}

func (x *Exec) need(fr *Frame, st *State, kind string, ins ssa.Instruction, goal *Term) {
	r := st.Facts.Holds(goal)
	if x.rec == 0 && x.OnOb != nil {
		x.OnOb(&Ob{Kind: kind, Fn: fr.Fn, Instr: ins, Goal: goal, OK: r > 0, St: st, Stack: append([]*ssa.Function(nil), x.stack...)})
	}
	if r == 0 {
		x.Assume(st, goal)
	}
}

// Need records an obligation from a model.
func (c *Call) Need(kind string, goal *Term) {
	c.X.need(c.Frame, c.St, kind, c.Instr, goal)
}

func (x *Exec) event(fr *Frame, st *State, kind, name string, args []*Term, res *Term, ins ssa.Instruction) *Event {
	x.nev++
	n := 0
	if st.Trace != nil {
		n = st.Trace.N
	}
	ev := &Event{Prev: st.Trace, N: n + 1, Kind: kind, Name: name, Args: args, Res: res, Instr: ins, Facts: st.Facts, Depth: len(x.stack)}
	if fr != nil {
		ev.Fn = fr.Fn
	}
	ev.Stack = append([]*ssa.Function(nil), x.stack...)
	ev.St = st
	st.Trace = ev
	if x.rec == 0 && x.OnEvent != nil {
		x.OnEvent(ev)
	}
	return ev
}

func (x *Exec) val(fr *Frame, p *Path, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constant(c)
	case *ssa.Global:
		return globalObj(c)
	case *ssa.Function:
		return closure(c, nil)
	case *ssa.Builtin:
		return App("builtin:"+c.Name(), 0)
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	t := x.Fresh(v.Name(), v.Type())
	p.env[v] = t
	return t
}

func globalObj(g *ssa.Global) *Term {
	n := g.Name()
	if g.Pkg != nil {
		n = g.Pkg.Pkg.Path() + "." + n
	}
	return Obj("global:" + n)
}

func closure(fn *ssa.Function, bind []*Term) *Term {
	return mk(OClo, 0, 0, fn.String(), fn, nil, bind...)
}

func (x *Exec) constant(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return x.Zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str(constant.StringVal(c.Value))
			}
		case u.Info()&types.IsInteger != 0:
			w, _ := width(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Int(w, uint64(i))
			}
			if i, ok := constant.Uint64Val(v); ok {
				return Int(w, i)
			}
		case u.Info()&types.IsFloat != 0:
			return mk(OFloat, 0, 0, c.Value.ExactString(), nil, nil)
		}
	}
	r := App("const:"+c.String(), 0)
	return r
}

func (x *Exec) allocObj(st *State, fr *Frame, v ssa.Value, kind string) *Term {
	n := fmt.Sprintf("%s:%s.%s%s", kind, fr.Fn.RelString(nil), v.Name(), fr.Ctx)
	st.alloc[n]++
	if c := st.alloc[n]; c > 1 {
		n = fmt.Sprintf("%s'%d", n, c)
	}
	o := Obj(n)
	o.T = v.Type()
	// forget what an earlier object of this name held
	for k := range st.cells {
		if k.base == o {
			delete(st.cells, k)
		}
	}
	for k := range st.regs {
		if a := split(k); a.base == o {
			delete(st.regs, k)
		}
	}
	delete(st.maps, o)
	return o
}

// NewObj makes an object in a model.
func (c *Call) NewObj(kind string) *Term { return c.NewObjIn(c.St, kind) }

// NewObjIn makes an object in a given state.
func (c *Call) NewObjIn(st *State, kind string) *Term {
	n := fmt.Sprintf("%s:%s@%d%s", kind, c.Frame.Fn.RelString(nil), c.Instr.Pos(), c.Frame.Ctx)
	st.alloc[n]++
	if k := st.alloc[n]; k > 1 {
		n = fmt.Sprintf("%s'%d", n, k)
	}
	o := Obj(n)
	for k := range st.cells {
		if k.base == o {
			delete(st.cells, k)
		}
	}
	for k := range st.regs {
		if a := split(k); a.base == o {
			delete(st.regs, k)
		}
	}
	delete(st.maps, o)
	return o
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func ext64(t *Term, typ types.Type) *Term {
	w, s := width(typ)
	if w == 64 {
		return t
	}
	if s {
		return SExt(64, t)
	}
	return ZExt(64, t)
}

func (x *Exec) nilCheck(fr *Frame, st *State, p *Term, ins ssa.Instruction) {
	if NonNil(p) || p.Op == OPtr {
		return
	}
	if p.Op == OObj {
		return
	}
	x.need(fr, st, "nil", ins, Not(Eq(p, Nil)))
}

func (x *Exec) simple(fr *Frame, p *Path, ins ssa.Instruction) {
	st := p.St
	set := func(v ssa.Value, t *Term) {
		if t.T == nil && (t.Op == OSym || t.Op == OApp) {
			t.T = v.Type()
		}
		p.env[v] = t
	}
	get := func(v ssa.Value) *Term { return x.val(fr, p, v) }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(i, x.allocObj(st, fr, i, "alloc"))
	case *ssa.BinOp:
		set(i, x.binop(fr, st, i, get(i.X), get(i.Y)))
	case *ssa.UnOp:
		v := get(i.X)
		switch i.Op {
		case token.MUL:
			x.nilCheck(fr, st, v, ins)
			if g, ok := i.X.(*ssa.Global); ok {
				set(i, x.loadGlobal(st, g, i.Type()))
			} else {
				t := st.Load(v, i.Type())
				set(i, t)
			}
			x.event2(fr, st, "load", v, p.env[i], ins)
		case token.SUB:
			if w, _ := width(i.Type()); w > 0 {
				set(i, Neg(v))
			} else {
				set(i, App("fneg", 0, v))
			}
		case token.NOT:
			set(i, Not(v))
		case token.XOR:
			set(i, Xor(v, Int(v.W, mask(v.W))))
		case token.ARROW:
			set(i, x.Fresh("recv", i.Type()))
			x.event(fr, st, "recv", "", []*Term{v}, nil, ins)
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var v ssa.Value
		if c, ok := i.(*ssa.ChangeType); ok {
			v = c.X
		} else {
			v = i.(*ssa.ChangeInterface).X
		}
		p.env[ins.(ssa.Value)] = get(v)
	case *ssa.Convert:
		set(i, x.convert(fr, st, p, i, get(i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, x.Fresh("conv", i.Type()))
	case *ssa.Extract:
		t := get(i.Tuple)
		if t.Op == OTuple && i.Index < len(t.A) {
			p.env[i] = t.A[i.Index]
		} else {
			p.env[i] = x.Val(fmt.Sprintf("ex%d", i.Index), i.Type(), t)
		}
	case *ssa.Field:
		t := get(i.X)
		if t.Op == OStruct {
			p.env[i] = t.A[i.Field]
		} else {
			p.env[i] = x.Val(fmt.Sprintf("fld.%d", i.Field), i.Type(), t)
		}
	case *ssa.FieldAddr:
		b := get(i.X)
		x.nilCheck(fr, st, b, ins)
		if b.T == nil && b.Op != OObj {
			b.T = i.X.Type()
		}
		set(i, fieldAddr(b, i.Field))
	case *ssa.Index:
		v := get(i.X)
		idx := ext64(get(i.Index), i.Index.Type())
		if isString(i.X.Type()) {
			x.need(fr, st, "index", ins, Lt(false, idx, StrLen(v)))
			set(i, StrByte(v, idx))
			return
		}
		if a, ok := i.X.Type().Underlying().(*types.Array); ok {
			x.need(fr, st, "index", ins, Lt(false, idx, I64(a.Len())))
			if v.Op == OStruct && idx.Op == OInt && int(idx.K) < len(v.A) {
				set(i, v.A[idx.K])
				return
			}
		}
		set(i, x.Val("aidx", i.Type(), v, idx))
	case *ssa.IndexAddr:
		v := get(i.X)
		idx := ext64(get(i.Index), i.Index.Type())
		if v.Op == OSlice {
			x.need(fr, st, "index", ins, Lt(false, idx, v.A[2]))
			st.Reg(v.A[0], deref(i.Type()))
			set(i, elemAddr(v.A[0], Add(v.A[1], idx)))
			return
		}
		if a, ok := deref(i.X.Type()).Underlying().(*types.Array); ok {
			x.nilCheck(fr, st, v, ins)
			x.need(fr, st, "index", ins, Lt(false, idx, I64(a.Len())))
			if split(v).idx == nil {
				st.Reg(v, a.Elem())
			}
			set(i, elemAddr(v, idx))
			return
		}
		set(i, x.Fresh("elemaddr", i.Type()))
	case *ssa.Lookup:
		m := get(i.X)
		k := get(i.Index)
		if isString(i.X.Type()) {
			idx := ext64(k, i.Index.Type())
			x.need(fr, st, "index", ins, Lt(false, idx, StrLen(m)))
			set(i, StrByte(m, idx))
			return
		}
		mt := i.X.Type().Underlying().(*types.Map)
		v, ok := x.mapLookup(st, m, k, mt)
		if fs := x.entryFacts(st, mt, k, v); ok.Op == OApp && ok.S == "maphas" && len(fs) > 0 {
			if x.onHas == nil {
				x.onHas = map[*Term][]*Term{}
			}
			if x.onHas[ok] == nil {
				x.onHas[ok] = fs
			}
			if !i.CommaOk && x.NonNilValues != nil && x.NonNilValues(mt) {
				if x.getHas == nil {
					x.getHas = map[*Term]*Term{}
				}
				x.getHas[v] = ok
			}
			if v.Op == OSlice && v.A[4].Op == OApp {
				if x.nilHas == nil {
					x.nilHas = map[*Term]*Term{}
				}
				x.nilHas[v.A[4]] = ok
			}
		}
		x.event(fr, st, "maplookup", "", []*Term{m, k, v, ok}, v, ins)
		if i.CommaOk {
			p.env[i] = Tuple(v, ok)
		} else {
			if b, isb := mt.Elem().Underlying().(*types.Basic); isb && b.Info()&types.IsBoolean != 0 && ok.False() {
				v = Bool(false)
			}
			p.env[i] = v
		}
	case *ssa.MakeChan:
		x.event(fr, st, "alloc", "makechan", []*Term{ext64(get(i.Size), i.Size.Type())}, nil, ins)
		set(i, x.allocObj(st, fr, i, "chan"))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range i.Bindings {
			b = append(b, get(v))
		}
		set(i, closure(i.Fn.(*ssa.Function), b))
	case *ssa.MakeInterface:
		p.env[i] = Iface(i.X.Type(), get(i.X))
	case *ssa.MakeMap:
		if i.Reserve != nil {
			x.event(fr, st, "alloc", "makemap", []*Term{ext64(get(i.Reserve), i.Reserve.Type())}, nil, ins)
		}
		o := x.allocObj(st, fr, i, "map")
		st.maps[o] = &MapC{empty: true, base: o, ver: App("emptymap", 0)}
		set(i, o)
	case *ssa.MakeSlice:
		l := ext64(get(i.Len), i.Len.Type())
		c := ext64(get(i.Cap), i.Cap.Type())
		x.need(fr, st, "makeslice", ins, And2(Le(true, I64(0), l), Le(true, l, c)))
		x.event(fr, st, "alloc", "makeslice", []*Term{l, c}, nil, ins)
		o := x.allocObj(st, fr, i, "make")
		et := i.Type().Underlying().(*types.Slice).Elem()
		st.regs[o] = &Reg{elem: et, zero: true, n: c, ver: App("zeroreg", 0)}
		set(i, SliceV(o, I64(0), l, c, Bool(false)))
	case *ssa.MapUpdate:
		m := get(i.Map)
		if m.Op != OObj {
			x.need(fr, st, "nilmap", ins, Not(Eq(m, Nil)))
		}
		k, v := get(i.Key), get(i.Value)
		x.event(fr, st, "mapupdate", "", []*Term{m, k, v}, nil, ins)
		st.MapUpdate(m, k, v)
	case *ssa.Range:
		it := App("iter", 0, get(i.X), Sym("it", 0, nil))
		set(i, it)
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			st.SetGhost(it, "n", I64(0))
			st.SetGhost(it, "ver", st.Map(it.A[0]).ver)
		}
	case *ssa.Send:
		x.event(fr, st, "send", "", []*Term{get(i.Chan), get(i.X)}, nil, ins)
	case *ssa.Slice:
		set(i, x.slice(fr, st, p, i))
	case *ssa.SliceToArrayPointer:
		v := get(i.X)
		at := deref(i.Type()).Underlying().(*types.Array)
		x.need(fr, st, "slice2arr", ins, Le(true, I64(at.Len()), v.A[2]))
		if v.A[1] == I64(0) {
			set(i, v.A[0])
		} else {
			set(i, x.Fresh("arrp", i.Type()))
		}
	case *ssa.Store:
		a := get(i.Addr)
		v := get(i.Val)
		x.nilCheck(fr, st, a, ins)
		x.event2(fr, st, "store", a, v, ins)
		st.Store(a, v, i.Val.Type())
	default:
		if v, ok := ins.(ssa.Value); ok {
			p.env[v] = x.Fresh("unknown", v.Type())
		}
		x.fail("unsupported instruction %T in %s", ins, fr.Fn)
	}
}

// event2 reports loads and stores to the hook only (they are not traced).
func (x *Exec) event2(fr *Frame, st *State, kind string, a, v *Term, ins ssa.Instruction) {
	if x.rec == 0 && x.OnMem != nil {
		x.OnMem(&Event{Prev: st.Trace, Kind: kind, Args: []*Term{a, v}, Instr: ins, Fn: fr.Fn, Facts: st.Facts, St: st})
	}
}

func And2(a, b *Term) *Term {
	if a.False() || b.False() {
		return Bool(false)
	}
	if a.True() {
		return b
	}
	if b.True() {
		return a
	}
	return App("and", 0, a, b)
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global, typ types.Type) *Term {
	o := globalObj(g)
	if g.Pkg != nil && !(g.Pkg.Pkg.Path() == x.Module || strings.HasPrefix(g.Pkg.Pkg.Path(), x.Module+"/")) {
		n := "nn:" + g.Pkg.Pkg.Path() + "." + g.Name()
		switch typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			t := App(n, 0)
			t.T = typ
			return t
		}
		return x.Val("ext:"+g.Pkg.Pkg.Path()+"."+g.Name(), typ)
	}
	return st.Load(o, typ)
}

func (x *Exec) mapLookup(st *State, m, k *Term, mt *types.Map) (v, ok *Term) {
	c := st.Map(m)
	if c.sum != nil {
		for u := c.upd; u != nil; u = u.prev {
			switch st.Facts.Holds(Eq(u.key, k)) {
			case 1:
				if u.val == nil {
					return x.Zero(mt.Elem()), Bool(false)
				}
				return u.val, Bool(true)
			case 0:
				return x.Val("mapget", mt.Elem(), c.ver, k), App("maphas", 0, c.ver, k)
			}
		}
		// present elements are instances of the summary: the facts are
		// attached to the presence literal
		mp := map[*Term]*Term{}
		for _, h := range c.sum.Holes {
			mp[h] = App("mapinst:"+h.S, h.W, c.ver, k, h)
			mp[h].T = h.T
		}
		t := Subst(c.sum.Tmpl, mp)
		has := App("maphas", 0, c.ver, k)
		fs := []*Term{Eq(t.A[0], k)}
		for _, f := range c.sum.Facts {
			fs = append(fs, Subst(f, mp))
		}
		if x.onHas == nil {
			x.onHas = map[*Term][]*Term{}
		}
		x.onHas[has] = fs
		// A boolean map value is false when absent
		if b, isb := mt.Elem().Underlying().(*types.Basic); isb && b.Info()&types.IsBoolean != 0 {
			if t.A[1].True() {
				return has, has
			}
		}
		return t.A[1], has
	}
	return st.MapLookup(m, k, mt.Elem())
}

func (x *Exec) binop(fr *Frame, st *State, i *ssa.BinOp, a, b *Term) *Term {
	t := i.X.Type()
	w, signed := width(t)
	if w > 0 {
		switch i.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO, token.REM:
			x.need(fr, st, "div", i, Not(Eq(b, Int(w, 0))))
			if signed && st.Facts.Holds(Le(true, Int(w, 0), a)) > 0 && st.Facts.Holds(Le(true, Int(w, 0), b)) > 0 {
				signed = false
			}
			if i.Op == token.QUO {
				if signed {
					return DivS(a, b)
				}
				return DivU(a, b)
			}
			if signed {
				return RemS(a, b)
			}
			return RemU(a, b)
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		case token.XOR:
			return Xor(a, b)
		case token.AND_NOT:
			return And(a, Xor(b, Int(w, mask(w))))
		case token.SHL, token.SHR:
			sw, ss := width(i.Y.Type())
			if ss && b.Op != OInt {
				x.need(fr, st, "shift", i, Le(true, Int(sw, 0), b))
			}
			n := b
			if n.Op == OInt {
				n = Int(64, b.K)
			}
			if i.Op == token.SHL {
				return Shl(a, n)
			}
			if signed && st.Facts.Holds(Le(true, Int(w, 0), a)) <= 0 {
				return ShrS(a, n)
			}
			return ShrU(a, n)
		case token.EQL:
			return Eq(a, b)
		case token.NEQ:
			return Not(Eq(a, b))
		case token.LSS:
			return Lt(signed, a, b)
		case token.LEQ:
			return Le(signed, a, b)
		case token.GTR:
			return Lt(signed, b, a)
		case token.GEQ:
			return Le(signed, b, a)
		}
	}
	switch i.Op {
	case token.EQL:
		return x.equal(a, b)
	case token.NEQ:
		return Not(x.equal(a, b))
	}
	if isString(t) {
		switch i.Op {
		case token.ADD:
			return Cat(a, b)
		case token.LSS:
			return App("strlt", 0, a, b)
		case token.GTR:
			return App("strlt", 0, b, a)
		case token.LEQ:
			return Not(App("strlt", 0, b, a))
		case token.GEQ:
			return Not(App("strlt", 0, a, b))
		}
	}
	switch i.Op {
	case token.LSS:
		return App("flt", 0, a, b)
	case token.GTR:
		return App("flt", 0, b, a)
	case token.LEQ:
		return App("fle", 0, a, b)
	case token.GEQ:
		return App("fle", 0, b, a)
	case token.AND: // booleans
		return And2(a, b)
	}
	r := App("f"+i.Op.String(), 0, a, b)
	r.T = i.Type()
	return r
}

// Cat concatenates strings.
func Cat(a, b *Term) *Term {
	if a.Op == OStr && b.Op == OStr {
		return Str(a.S + b.S)
	}
	if a.Op == OStr && a.S == "" {
		return b
	}
	if b.Op == OStr && b.S == "" {
		return a
	}
	return App("cat", 0, a, b)
}

func (x *Exec) equal(a, b *Term) *Term {
	if a.Op == OIface && b.Op == ONil || b.Op == OIface && a.Op == ONil {
		return Bool(false)
	}
	// booleans
	if a.Op == OBool {
		a, b = b, a
	}
	if b.Op == OBool && isBoolTerm(a) {
		if b.K == 1 {
			return a
		}
		return Not(a)
	}
	return Eq(a, b)
}

func isBoolTerm(t *Term) bool {
	switch t.Op {
	case OBool, ONot, OEq, OLtU, OLtS:
		return true
	case OApp, OSym:
		if t.T != nil {
			b, ok := t.T.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsBoolean != 0
		}
		return t.W == 0 && (t.S == "maphas" || t.S == "hasnext" || t.S == "isnil" || t.S == "strlt" || t.S == "flt" || t.S == "fle")
	}
	return false
}

func (x *Exec) convert(fr *Frame, st *State, p *Path, i *ssa.Convert, v *Term, from, to types.Type) *Term {
	fw, fs := width(from)
	tw, _ := width(to)
	switch {
	case fw > 0 && tw > 0:
		if tw < fw {
			if st.Facts.Holds(Le(false, v, Int(fw, mask(tw)))) > 0 {
				// value-preserving
				return Trunc(tw, v)
			}
			return Trunc(tw, v)
		}
		if tw > fw {
			if fs {
				if st.Facts.Holds(Le(true, Int(fw, 0), v)) > 0 {
					return ZExt(tw, v)
				}
				return SExt(tw, v)
			}
			return ZExt(tw, v)
		}
		return v
	case isString(to):
		if v.Op == OSlice {
			if et, ok := from.Underlying().(*types.Slice); ok {
				if w, _ := width(et.Elem()); w == 8 {
					return st.StrOf(v)
				}
			}
		}
		if isString(from) {
			return v
		}
		return App("tostr", 0, v)
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if w, _ := width(sl.Elem()); w == 8 {
				return st.BytesOf(v, x.allocObj(st, fr, i, "bytes"))
			}
		}
		return x.Fresh("runes", to)
	case fw > 0 || tw > 0:
		if tw > 0 {
			if v.Op == OFloat {
				if f, err := parseFloat(v.S); err == nil && f >= 0 && f < math.MaxInt64 {
					return Int(tw, uint64(f))
				}
			}
			r := App("f2i", tw, v)
			r.T = to
			return r
		}
		r := App("i2f", 0, v)
		r.T = to
		return r
	}
	return v
}

func parseFloat(s string) (float64, error) {
	v := constant.MakeFromLiteral(s, token.FLOAT, 0)
	if v.Kind() == constant.Unknown {
		v = constant.MakeFromLiteral(s, token.INT, 0)
	}
	if v.Kind() == constant.Unknown {
		return 0, fmt.Errorf("float")
	}
	f, _ := constant.Float64Val(v)
	return f, nil
}

func (x *Exec) slice(fr *Frame, st *State, p *Path, i *ssa.Slice) *Term {
	v := x.val(fr, p, i.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ext64(x.val(fr, p, v), v.Type())
	}
	lo, hi, max := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = I64(0)
	}
	if isString(i.X.Type()) {
		l := StrLen(v)
		if hi == nil {
			hi = l
		}
		x.need(fr, st, "slice", i, And2(And2(Le(true, I64(0), lo), Le(true, lo, hi)), Le(true, hi, l)))
		return x.SubStr(st, v, lo, hi)
	}
	var region, off, l, c, isnil *Term
	if v.Op == OSlice {
		region, off, l, c, isnil = v.A[0], v.A[1], v.A[2], v.A[3], v.A[4]
	} else if at, ok := deref(i.X.Type()).Underlying().(*types.Array); ok {
		x.nilCheck(fr, st, v, i)
		n := I64(at.Len())
		region, off, l, c, isnil = v, I64(0), n, n, Bool(false)
		if split(v).idx != nil {
			region = App("inner", 0, v)
		}
		st.Reg(region, at.Elem())
	} else {
		return x.Fresh("slice", i.Type())
	}
	if hi == nil {
		hi = l
	}
	top := c
	if max != nil {
		x.need(fr, st, "slice", i, And2(Le(true, hi, max), Le(true, max, c)))
		top = max
	}
	g := And2(Le(true, I64(0), lo), Le(true, lo, hi))
	if hi != l || max != nil {
		g = And2(g, Le(true, hi, c))
	}
	x.need(fr, st, "slice", i, g)
	return SliceV(region, Add(off, lo), Sub(hi, lo), Sub(top, lo), isnil)
}

// SubStr is s[lo:hi].
func (x *Exec) SubStr(st *State, v, lo, hi *Term) *Term {
	if v.Op == OStr && lo.Op == OInt && hi.Op == OInt && lo.K <= hi.K && int(hi.K) <= len(v.S) {
		return Str(v.S[lo.K:hi.K])
	}
	if lo == I64(0) && hi == StrLen(v) {
		return v
	}
	c, off := strContent(v)
	return App("strb", 0, c, Add(off, lo), Sub(hi, lo))
}

func (x *Exec) next(fr *Frame, p *Path, i *ssa.Next) []*Path {
	it := x.val(fr, p, i.Iter)
	st := p.St
	tt := i.Type().(*types.Tuple)
	if i.IsString || it.Op != OApp || it.S != "iter" {
		p.env[i] = Tuple(Sym("ok", 0, types.Typ[types.Bool]), x.Fresh("k", tt.At(1).Type()), x.Fresh("v", tt.At(2).Type()))
		return []*Path{p}
	}
	m := it.A[0]
	c := st.Map(m)
	if c.empty && c.sum == nil && c.upd == nil {
		p.env[i] = Tuple(Bool(false), x.Zero(tt.At(1).Type()), x.Zero(tt.At(2).Type()))
		return []*Path{p}
	}
	q := p.fork()
	q.env[i] = Tuple(Bool(false), x.Zero(tt.At(1).Type()), x.Zero(tt.At(2).Type()))
	x.event(fr, q.St, "mapend", "", []*Term{m, it}, nil, i)
	// an unmodified map has as many iterations as elements
	if n := st.Ghost(it, "n"); n != nil && st.Ghost(it, "ver") == c.ver {
		l := mapLen(c)
		x.Assume(q.St, Eq(n, l))
		x.Assume(p.St, Lt(true, n, l))
		p.St.SetGhost(it, "n", AddK(n, 1))
	}
	var k, v *Term
	if mt, ok := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
		if c.sum != nil && c.upd == nil {
			mp := map[*Term]*Term{}
			for _, h := range c.sum.Holes {
				mp[h] = Sym(h.S, h.W, h.T)
			}
			t := Subst(c.sum.Tmpl, mp)
			for _, f := range c.sum.Facts {
				p.St.Facts = p.St.Facts.Add(Subst(f, mp))
			}
			k, v = t.A[0], t.A[1]
		} else {
			pos := Sym("mi", 0, nil)
			k = x.Val("mapkey", mt.Key(), c.ver, pos)
			v = x.Val("mapval", mt.Elem(), c.ver, pos)
		}
		for _, f := range x.entryFacts(p.St, mt, k, v) {
			x.Assume(p.St, f)
		}
		if p.St.Facts.Holds(Bool(true)) > 0 {
			x.event(fr, p.St, "mapnext", "", []*Term{m, it, k, v}, nil, i)
		}
		p.env[i] = Tuple(Bool(true), k, v)
	}
	return []*Path{p, q}
}

func (x *Exec) typeAssert(fr *Frame, p *Path, i *ssa.TypeAssert) ([]*Path, []Outcome) {
	v := x.val(fr, p, i.X)
	set := func(q *Path, val *Term, ok bool) {
		if i.CommaOk {
			q.env[i] = Tuple(val, Bool(ok))
		} else {
			q.env[i] = val
		}
	}
	toIface := types.IsInterface(i.AssertedType)
	if v.Op == OIface {
		ok := false
		if toIface {
			ok = types.Implements(v.X.(types.Type), i.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.X.(types.Type), i.AssertedType)
		}
		if ok {
			if toIface {
				set(p, v, true)
			} else {
				set(p, v.A[0], true)
			}
		} else if i.CommaOk {
			set(p, x.Zero(i.AssertedType), false)
		} else {
			x.need(fr, p.St, "assert", i, Bool(false))
			return nil, []Outcome{{"panic", p.St, nil}}
		}
		return []*Path{p}, nil
	}
	var val *Term
	if toIface {
		val = v
	} else {
		val = x.Val("assert:"+types.TypeString(i.AssertedType, nil), i.AssertedType, v)
	}
	is := App("is:"+types.TypeString(i.AssertedType, nil), 0, v)
	if !i.CommaOk {
		x.need(fr, p.St, "assert", i, is)
		set(p, val, true)
		return []*Path{p}, nil
	}
	switch p.St.Facts.Holds(is) {
	case 1:
		set(p, val, true)
		return []*Path{p}, nil
	case -1:
		set(p, x.Zero(i.AssertedType), false)
		return []*Path{p}, nil
	}
	q := p.fork()
	x.Assume(p.St, is)
	x.Assume(q.St, Not(is))
	set(p, val, true)
	set(q, x.Zero(i.AssertedType), false)
	return []*Path{p, q}, nil
}

func (x *Exec) callArgs(fr *Frame, p *Path, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if c.IsInvoke() {
		args = append(args, x.val(fr, p, c.Value))
	} else {
		fn = x.val(fr, p, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, p, a))
	}
	return fn, args
}

func (x *Exec) calleeName(c *ssa.CallCommon, fn *Term) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if fn != nil && fn.Op == OClo {
		return FnName(fn.X.(*ssa.Function))
	}
	return "?"
}

// FnName is the full name of a function, as in (*os.File).ReadAt.
func FnName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	return fn.String()
}

func (x *Exec) call(fr *Frame, p *Path, ins ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term) []Outcome {
	st := p.St
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return []Outcome{{"return", st, x.builtin(fr, st, ins, b, c, args)}}
	}
	sig := c.Signature()
	cl := &Call{X: x, St: st, Sig: sig, Args: args, Instr: ins, Frame: fr}
	for _, a := range c.Args {
		cl.ArgT = append(cl.ArgT, a.Type())
	}
	var f *ssa.Function
	var bind []*Term
	if c.IsInvoke() {
		cl.ArgT = append([]types.Type{c.Value.Type()}, cl.ArgT...)
		recv := args[0]
		if recv.Op == OIface {
			t := recv.X.(types.Type)
			f = x.lookupMethod(t, c.Method)
			if f != nil {
				cl.Args = append([]*Term{recv.A[0]}, args[1:]...)
				cl.ArgT[0] = t
			}
		} else {
			if !NonNil(recv) {
				x.need(fr, st, "nil", ins, Not(Eq(recv, Nil)))
			}
		}
		if f == nil {
			cl.Name = c.Method.FullName()
		}
	} else if fn.Op == OClo {
		f = fn.X.(*ssa.Function)
		bind = fn.A
	} else {
		cl.Name = "?"
		if fn.Op == OApp && strings.HasPrefix(fn.S, "method:") {
			cl.Name = fn.S
			cl.Args = append(append([]*Term(nil), fn.A...), args...)
		}
		x.need(fr, st, "nil", ins, Not(Eq(fn, Nil)))
	}
	if f != nil {
		cl.Fn = f
		cl.Name = FnName(f)
	}
	return x.dispatch(fr, cl, f, bind)
}

// Invoke calls a function value from a model.
func (c *Call) Invoke(fn *Term, args []*Term, st *State) []Outcome {
	if fn.Op != OClo {
		return []Outcome{{"return", st, c.X.Fresh("dyn", types.NewTuple())}}
	}
	f := fn.X.(*ssa.Function)
	cl := &Call{X: c.X, St: st, Fn: f, Name: FnName(f), Sig: f.Signature, Args: args, Instr: c.Instr, Frame: c.Frame}
	for _, prm := range f.Params {
		cl.ArgT = append(cl.ArgT, prm.Type())
	}
	return c.X.dispatch(c.Frame, cl, f, fn.A)
}

// InvokeMethod calls a method of an interface value known by its dynamic type.
func (c *Call) Method(recv *Term, name string) *ssa.Function {
	if recv.Op != OIface {
		return nil
	}
	t := recv.X.(types.Type)
	ms := c.X.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.X.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (x *Exec) dispatch(fr *Frame, cl *Call, f *ssa.Function, bind []*Term) []Outcome {
	st := cl.St
	if f != nil && strings.HasSuffix(f.Name(), "$bound") && len(bind) == 1 {
		// a method value
		cl.Args = append([]*Term{bind[0]}, cl.Args...)
		cl.ArgT = append([]types.Type{f.FreeVars[0].Type()}, cl.ArgT...)
		bind = nil
		if o, ok := f.Object().(*types.Func); ok {
			if g := x.Prog.FuncValue(o); g != nil {
				f = g
				cl.Fn = g
			} else if bind == nil {
				cl.Name = o.FullName()
				if _, isIf := deref(cl.ArgT[0]).Underlying().(*types.Interface); isIf {
					f = nil
				}
			}
		}
	}
	if x.inInit != nil && f != nil && f != x.inInit && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
		return []Outcome{{"return", st, Tuple()}}
	}
	if IgnoredPkg(cl.Name) {
		return x.ignored(cl)
	}
	if m, ok := x.Models[cl.Name]; ok {
		if r := m(cl); r != nil {
			return r
		}
	}
	if f != nil {
		if x.Anchor != nil {
			if m := x.Anchor(f); m != nil {
				if r := m(cl); r != nil {
					return r
				}
			}
		}
		if len(f.Blocks) > 0 && x.InModule(f) {
			depth := 0
			for _, g := range x.stack {
				if g == f {
					depth++
				}
			}
			if depth == 0 && len(x.stack) < 40 && (x.Cut == nil || !x.Cut(f)) {
				return x.runFn(f, cl.Args, bind, st, fr, fmt.Sprintf("%s/%d", fr.Ctx, cl.Instr.Pos()))
			}
			// recursion
			x.event(fr, st, "recurse", cl.Name, cl.Args, nil, cl.Instr)
			for i, a := range cl.Args {
				x.havocArg(st, a, cl.argT(i))
			}
			return x.Results(cl, "rec:"+f.Name())
		}
	}
	return x.External(cl)
}

func (c *Call) argT(i int) types.Type {
	if i < len(c.ArgT) {
		return c.ArgT[i]
	}
	return nil
}

func (x *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := x.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.Prog.MethodValue(sel)
}

// External is the default for functions without a model.
func (x *Exec) External(cl *Call) []Outcome {
	if pureFns[cl.Name] || purePkg(cl.Name) {
		r := x.Pure(cl)
		x.event(cl.Frame, cl.St, "call", cl.Name, cl.Args, r, cl.Instr)
		return []Outcome{{"return", cl.St, r}}
	}
	if x.OnGive != nil && x.rec == 0 {
		x.OnGive(cl.St, cl.Args)
	}
	for i, a := range cl.Args {
		x.havocArg(cl.St, a, cl.argT(i))
	}
	if cl.ErrUnused() && isErrSig(cl.Sig) {
		return cl.Ret(x.Fresh(short(cl.Name), tupleOf(cl.Sig)))
	}
	return x.Results(cl, cl.Name)
}

// Pure is the result of a pure function.
func (x *Exec) Pure(cl *Call) *Term {
	var as []*Term
	for i, a := range cl.Args {
		as = append(as, x.Pack(cl.St, a, cl.argT(i)))
	}
	return x.resVal(cl.Name, cl.Sig, as...)
}

func (x *Exec) resVal(name string, sig *types.Signature, as ...*Term) *Term {
	rt := sig.Results()
	switch rt.Len() {
	case 0:
		return Tuple()
	case 1:
		return x.Val(name, rt.At(0).Type(), as...)
	}
	return x.Val(name, rt, as...)
}

// Pack turns an argument into a term that depends on its content.
func (x *Exec) Pack(st *State, a *Term, t types.Type) *Term {
	if a.Op == OSlice {
		if r := Root(a); r != nil {
			rg := st.Reg(a.A[0], nil)
			if rg.w == nil && rg.raw == a.A[0] {
				return r
			}
		}
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				// variadic arguments: unpack small constant lists
				if a.A[2].Op == OInt && a.A[2].K <= 16 {
					if _, isIface := sl.Elem().Underlying().(*types.Interface); isIface || isString(sl.Elem()) {
						var es []*Term
						for i := 0; i < int(a.A[2].K); i++ {
							es = append(es, st.ReadElem(a.A[0], AddK(a.A[1], int64(i)), sl.Elem()))
						}
						return App("list", 0, es...)
					}
				}
			}
		}
		c, off := st.Content(a.A[0], a.A[1], a.A[2])
		return App("bytes", 0, c, off, a.A[2])
	}
	if a.Op == OIface {
		return App("iface", 0, x.Pack(st, a.A[0], a.X.(types.Type)))
	}
	return a
}

// Unlist returns the elements of a variadic argument.
func (x *Exec) Unlist(st *State, a *Term, elem types.Type) []*Term {
	if a.Op != OSlice || a.A[2].Op != OInt || a.A[2].K > 64 {
		return nil
	}
	var es []*Term
	for i := 0; i < int(a.A[2].K); i++ {
		es = append(es, st.ReadElem(a.A[0], AddK(a.A[1], int64(i)), elem))
	}
	return es
}

func (x *Exec) havocArg(st *State, a *Term, t types.Type) {
	switch a.Op {
	case OSlice:
		if a.A[0].Op != ONil {
			st.HavocReg(a.A[0])
		}
	case OIface:
		// values boxed into interfaces are not modified unless pointers
		if a.A[0].Op == OObj || a.A[0].Op == OPtr {
			var keep []string
			if pt, ok := a.X.(*types.Pointer); ok && x.Keep != nil {
				keep = x.Keep(pt.Elem())
			}
			x.havocObj(st, a.A[0], keep...)
		}
	case OObj, OPtr:
		x.havocObj(st, a)
	}
}

// lockShared forgets what others may have changed in an object before its lock
// was taken.
func (x *Exec) lockShared(cl *Call) {
	ins, ok := cl.Instr.(ssa.CallInstruction)
	if !x.Shared || !ok || len(ins.Common().Args) == 0 {
		return
	}
	fa, ok := ins.Common().Args[0].(*ssa.FieldAddr)
	if !ok || x.Keep == nil {
		return
	}
	ad := split(cl.Args[0])
	i := strings.LastIndexByte(ad.path, '.')
	if i < 0 || ad.idx != nil {
		return
	}
	p := addr{base: ad.base, path: ad.path[:i]}.term()
	for k, v := range cl.St.cells {
		if k.base == ad.base && strings.HasPrefix(k.path, ad.path[:i]) && v != nil {
			if _, ok := cl.St.maps[v]; ok {
				x.havocObj(cl.St, v)
			}
		}
	}
	x.havocObj(cl.St, p, x.Keep(fa.X.Type().Underlying().(*types.Pointer).Elem())...)
}

func (x *Exec) havocObj(st *State, p *Term, keep ...string) {
	ad := split(p)
cells:
	for k, v := range st.cells {
		if k.base == ad.base && strings.HasPrefix(k.path, ad.path) && !strings.HasPrefix(k.path, "!") {
			for _, q := range keep {
				if r := k.path[len(ad.path):]; r == q || strings.HasPrefix(r, q+".") {
					continue cells
				}
			}
			st.cells[k] = x.freshLike(v)
		}
	}
	for k := range st.regs {
		b := split(k)
		if b.base == ad.base && strings.HasPrefix(b.path, ad.path) {
			st.HavocReg(k)
		}
	}
	if c, ok := st.maps[p]; ok {
		v := Sym("havocmap", 0, nil)
		_ = c
		st.maps[p] = &MapC{base: v, ver: v}
	}
}

func isError(t types.Type) bool {
	return types.TypeString(t, nil) == "error"
}

// Results forks over success and failure of a call returning an error.
func (x *Exec) Results(cl *Call, name string) []Outcome {
	rt := cl.Sig.Results()
	n := rt.Len()
	if n == 0 {
		x.event(cl.Frame, cl.St, "call", cl.Name, cl.Args, nil, cl.Instr)
		return []Outcome{{"return", cl.St, Tuple()}}
	}
	var vals []*Term
	for i := 0; i < n; i++ {
		v := x.Fresh(short(name), rt.At(i).Type())
		if v.T == nil {
			v.T = rt.At(i).Type()
		}
		vals = append(vals, v)
	}
	if !isError(rt.At(n - 1).Type()) {
		return cl.Ret(pack(vals))
	}
	// failure
	st2 := cl.St.Clone()
	ev := append([]*Term(nil), vals[:n-1]...)
	for i := range ev {
		if _, ok := rt.At(i).Type().Underlying().(*types.Pointer); ok {
			ev[i] = Nil
		} else {
			ev[i] = x.Fresh(short(name)+"?", rt.At(i).Type())
		}
	}
	ev = append(ev, x.NewErr(name))
	vals[n-1] = Nil
	for i := range vals[:n-1] {
		if _, ok := rt.At(i).Type().Underlying().(*types.Pointer); ok {
			x.Assume(cl.St, Not(Eq(vals[i], Nil)))
		}
	}
	x.event(cl.Frame, cl.St, "call", cl.Name, cl.Args, pack(vals), cl.Instr)
	x.event(cl.Frame, st2, "call", cl.Name, cl.Args, pack(ev), cl.Instr)
	return []Outcome{{"return", cl.St, pack(vals)}, {"return", st2, pack(ev)}}
}

func (x *Exec) NewErr(name string) *Term {
	return App("err:"+name, 0, Sym("e", 0, nil))
}

func pack(v []*Term) *Term {
	if len(v) == 1 {
		return v[0]
	}
	return Tuple(v...)
}

func short(n string) string {
	if i := strings.LastIndexAny(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// Ret records the call and returns a single result.
func (c *Call) Ret(v *Term) []Outcome {
	c.X.event(c.Frame, c.St, "call", c.Name, c.Args, v, c.Instr)
	return []Outcome{{"return", c.St, v}}
}

// Quiet returns a result without recording an event.
func (c *Call) Quiet(v *Term) []Outcome { return []Outcome{{"return", c.St, v}} }

// Event records an event in a model.
func (c *Call) Event(st *State, kind, name string, args []*Term, res *Term) *Event {
	return c.X.event(c.Frame, st, kind, name, args, res, c.Instr)
}

func (x *Exec) builtin(fr *Frame, st *State, ins ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term) *Term {
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if a.Op == OSlice {
				if b.Name() == "len" {
					return a.A[2]
				}
				return a.A[3]
			}
		case *types.Map:
			return mapLen(st.Map(a))
		case *types.Array:
			return I64(u.Len())
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				return I64(at.Len())
			}
		case *types.Basic:
			return StrLen(a)
		}
		return App("nat:"+b.Name(), 64, a)
	case "append":
		s, e := args[0], args[1]
		st0 := c.Args[0].Type().Underlying().(*types.Slice)
		v, _ := ins.(ssa.Value)
		if s.Op != OSlice || v == nil {
			return x.Fresh("append", c.Args[0].Type())
		}
		x.event(fr, st, "append", "", []*Term{s, e}, nil, ins)
		o := x.allocObj(st, fr, v, "append")
		r := &Reg{elem: st0.Elem(), zero: true, ver: App("zeroreg", 0)}
		if s.A[2] != I64(0) {
			src := st.Reg(s.A[0], st0.Elem())
			if s.A[1] == I64(0) && (src.w == nil || src.w.kind == wComp && src.w.prev == nil && src.w.off == I64(0) && src.w.n == s.A[2]) {
				cp := *src
				cp.n = nil
				r = &cp
			} else {
				r = r.write(st, Write{kind: wCopy, off: I64(0), n: s.A[2], src: src, srcOff: s.A[1]})
			}
		}
		var el *Term
		if isString(c.Args[1].Type()) {
			el = StrLen(e)
			cont, off := strContent(e)
			r = r.write(st, Write{kind: wCopy, off: s.A[2], n: el, src: &Reg{elem: byteType, raw: cont, ver: cont}, srcOff: off})
		} else if e.Op == OSlice {
			el = e.A[2]
			if el.Op == OInt && el.K <= 16 {
				for k := 0; k < int(el.K); k++ {
					ev := st.ReadElem(e.A[0], AddK(e.A[1], int64(k)), st0.Elem())
					r = r.write(st, Write{kind: wElem, off: AddK(s.A[2], int64(k)), n: I64(1), val: ev})
				}
			} else {
				r = r.write(st, Write{kind: wCopy, off: s.A[2], n: el, src: st.Reg(e.A[0], st0.Elem()), srcOff: e.A[1]})
			}
		} else {
			return x.Fresh("append", c.Args[0].Type())
		}
		st.regs[o] = r
		l := Add(s.A[2], el)
		if l.Op != OInt { // running out of memory aside, appending works
			x.Assume(st, Le(true, I64(0), l))
			x.Assume(st, Le(true, s.A[2], l))
		}
		isnil := Bool(false)
		if el == I64(0) {
			isnil = s.A[4]
		}
		return SliceV(o, I64(0), l, Add(l, App("nat:grow", 64, o)), isnil)
	case "copy":
		d, s := args[0], args[1]
		if d.Op != OSlice {
			return x.Fresh("copy", types.Typ[types.Int])
		}
		var src *Reg
		var off, sl *Term
		if s.Op == OSlice {
			src, off, sl = st.Reg(s.A[0], byteType), s.A[1], s.A[2]
		} else {
			var cont *Term
			cont, off = strContent(s)
			src = &Reg{elem: byteType, raw: cont, ver: cont}
			sl = StrLen(s)
		}
		n := sl
		if sl != d.A[2] {
			switch st.Facts.Holds(Le(true, sl, d.A[2])) {
			case 1:
			case -1:
				n = d.A[2]
			default:
				if st.Facts.Holds(Le(true, d.A[2], sl)) > 0 {
					n = d.A[2]
				} else {
					n = App("nat:min", 64, sl, d.A[2])
					x.Assume(st, Le(true, n, sl))
					x.Assume(st, Le(true, n, d.A[2]))
				}
			}
		}
		x.event(fr, st, "copy", "", []*Term{d, s, n}, n, ins)
		if n != I64(0) {
			if n.Op == OInt && n.K <= 64 && s.Op == OSlice {
				// fixed size: copy elements as one write
			}
			st.Write(d.A[0], Write{kind: wCopy, off: d.A[1], n: n, src: src, srcOff: off})
		}
		return n
	case "delete":
		x.event(fr, st, "mapdelete", "", args, nil, ins)
		st.MapUpdate(args[0], args[1], nil)
		return Tuple()
	case "min", "max":
		w, signed := width(c.Args[0].Type())
		if w > 0 && len(args) == 2 {
			l := Lt(signed, args[0], args[1])
			r := st.Facts.Holds(l)
			a, b2 := args[0], args[1]
			if b.Name() == "max" {
				a, b2 = b2, a
			}
			if r > 0 {
				return a
			}
			if r < 0 {
				return b2
			}
			v := App(b.Name(), w, args...)
			for _, t := range args {
				if b.Name() == "min" {
					x.Assume(st, Le(signed, v, t))
				} else {
					x.Assume(st, Le(signed, t, v))
				}
			}
			if st.Facts.Holds(Le(signed, Int(w, 0), args[0])) > 0 && st.Facts.Holds(Le(signed, Int(w, 0), args[1])) > 0 {
				x.Assume(st, Le(signed, Int(w, 0), v))
			}
			return v
		}
	case "clear":
		if args[0].Op == OSlice {
			st.Write(args[0].A[0], Write{kind: wFill, off: args[0].A[1], n: args[0].A[2], val: x.Zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())})
		} else {
			x.event(fr, st, "mapclear", "", args, nil, ins)
			st.maps[args[0]] = &MapC{empty: true, base: args[0], ver: App("emptymap", 0)}
		}
		return Tuple()
	case "print", "println":
		x.event(fr, st, "call", "builtin."+b.Name(), args, nil, ins)
		return Tuple()
	case "close":
		return Tuple()
	case "recover":
		return Nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	if v, ok := ins.(ssa.Value); ok {
		return x.Fresh(b.Name(), v.Type())
	}
	return Tuple()
}

// ------------------------------------------------------------- merging

// memSig identifies the memory.
func (x *Exec) memSig(s *State) string {
	var h1, h2 uint64
	add := func(kind, a uint64, path string, v uint64) {
		h := uint64(14695981039346656037) ^ kind
		for i := 0; i < len(path); i++ {
			h = (h ^ uint64(path[i])) * 1099511628211
		}
		h = mix(mix(h+a*0x9e3779b97f4a7c15) + v)
		h1 += h
		h2 += mix(h ^ 0xd6e8feb86659fd93)
	}
	for k, v := range s.cells {
		add(1, uint64(k.base.ID), k.path, uint64(v.ID))
	}
	for k, r := range s.regs {
		add(2, uint64(k.ID), "", uint64(r.ver.ID))
	}
	for k, m := range s.maps {
		add(3, uint64(k.ID), "", uint64(m.ver.ID))
	}
	return strconv.FormatUint(h1, 36) + "." + strconv.FormatUint(h2, 36)
}

func mix(h uint64) uint64 {
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	return h
}

func (x *Exec) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) <= x.mergeOver() {
		return outs
	}
	type grp struct{ o Outcome }
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		sig := o.Kind
		if o.Ret != nil {
			sig += fmt.Sprint(o.Ret.ID)
		}
		sig += x.memSig(o.St)
		if j, ok := idx[sig]; ok {
			res[j].St = x.joinStates(res[j].St, o.St)
			continue
		}
		idx[sig] = len(res)
		res = append(res, o)
	}
	return res
}

func (x *Exec) mergeOver() int {
	if x.MergeOver > 0 {
		return x.MergeOver
	}
	return 24
}

// joinStates joins two states with equal memory.
func (x *Exec) joinStates(a, b *State) *State {
	r := a.Clone()
	have := map[*Term]bool{}
	b.Facts.Each(func(t *Term) bool { have[t] = true; return true })
	var keep []*Term
	a.Facts.Each(func(t *Term) bool {
		if have[t] || b.Facts.Holds(t) > 0 {
			keep = append(keep, t)
		}
		return true
	})
	f := emptyFacts
	for i := len(keep) - 1; i >= 0; i-- {
		f = f.Add(keep[i])
	}
	r.Facts = f
	for k, v := range b.alloc {
		if v > r.alloc[k] {
			r.alloc[k] = v
		}
	}
	// keep the common history
	t1, t2 := a.Trace, b.Trace
	for t1 != t2 {
		n1, n2 := 0, 0
		if t1 != nil {
			n1 = t1.N
		}
		if t2 != nil {
			n2 = t2.N
		}
		if n1 >= n2 {
			t1 = t1.Prev
		} else {
			t2 = t2.Prev
		}
	}
	n := 1
	if t1 != nil {
		n = t1.N + 1
	}
	r.Trace = &Event{Prev: t1, N: n, Kind: "join", Args: nil, Facts: f}
	return r
}

// mergePaths joins paths at the same point with equal live values.
func (x *Exec) mergePaths(fr *Frame, ps []*Path) []*Path {
	idx := map[string]int{}
	var res []*Path
	for _, p := range ps {
		lv := x.liveAt(fr.Fn, p.block, p.prev, p.idx)
		var ks uint64
		for v := range lv {
			if t, ok := p.env[v]; ok {
				ks += mix(mix(x.valID(v)) + uint64(t.ID))
			}
		}
		prev := -1
		if p.prev != nil {
			prev = p.prev.Index
		}
		sig := fmt.Sprintf("%d/%d/%d/%d|%d|%s", p.block.Index, prev, p.idx, len(p.defers), ks, x.memSig(p.St))
		if j, ok := idx[sig]; ok {
			res[j].St = x.joinStates(res[j].St, p.St)
			continue
		}
		idx[sig] = len(res)
		res = append(res, p)
	}
	return res
}

func (x *Exec) valID(v ssa.Value) uint64 {
	if x.valIDs == nil {
		x.valIDs = map[ssa.Value]uint64{}
	}
	n, ok := x.valIDs[v]
	if !ok {
		n = uint64(len(x.valIDs)) + 1
		x.valIDs[v] = n
	}
	return n
}

// liveAt tells which values are used from the start of a block (or after its
// phi nodes) on.
func (x *Exec) liveAt(fn *ssa.Function, b *ssa.BasicBlock, prev *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	if x.live == nil {
		x.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	m, ok := x.live[fn]
	if !ok {
		// m[b]: live after the phi nodes of b
		m = map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			m[b] = map[ssa.Value]bool{}
		}
		defers := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if d, ok := ins.(*ssa.Defer); ok {
					for _, op := range d.Operands(nil) {
						if *op != nil {
							defers[*op] = true
						}
					}
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				live := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					phi := map[ssa.Value]bool{}
					for _, p := range phisOf(s) {
						phi[p] = true
						for k, q := range s.Preds {
							if q == b {
								live[p.Edges[k]] = true
							}
						}
					}
					for v := range m[s] {
						if !phi[v] {
							live[v] = true
						}
					}
				}
				for k := len(b.Instrs) - 1; k >= 0; k-- {
					ins := b.Instrs[k]
					if _, ok := ins.(*ssa.Phi); ok {
						break
					}
					if v, ok := ins.(ssa.Value); ok {
						delete(live, v)
					}
					for _, op := range ins.Operands(nil) {
						if *op != nil {
							live[*op] = true
						}
					}
				}
				for v := range defers {
					live[v] = true
				}
				if len(live) != len(m[b]) {
					m[b] = live
					ch = true
				}
			}
		}
		x.live[fn] = m
	}
	if idx > 0 {
		r := map[ssa.Value]bool{}
		for v := range m[b] {
			r[v] = true
		}
		for _, ins := range b.Instrs[:idx] {
			if v, ok := ins.(ssa.Value); ok {
				r[v] = true
			}
		}
		return r
	}
	r := map[ssa.Value]bool{}
	for v := range m[b] {
		r[v] = true
	}
	for _, p := range phisOf(b) {
		delete(r, p)
	}
	for _, p := range phisOf(b) {
		for k, q := range b.Preds {
			if q == prev {
				r[p.Edges[k]] = true
			}
		}
	}
	return r
}

// GlobalAddr is the address of a package variable.
func GlobalAddr(g *ssa.Global) *Term { return globalObj(g) }

// mapLen is the number of elements of a map.
func mapLen(c *MapC) *Term {
	if c.empty && c.upd == nil && c.sum == nil {
		return I64(0)
	}
	return App("nat:maplen", 64, c.ver)
}

// entryFacts lists what is known of an entry of a map.
func (x *Exec) entryFacts(st *State, mt *types.Map, k, v *Term) []*Term {
	var r []*Term
	if x.NonNilValues != nil && x.NonNilValues(mt) {
		r = append(r, Not(Eq(v, Nil)))
	}
	if x.MapFacts != nil {
		r = append(r, x.MapFacts(st, mt, k, v)...)
	}
	return r
}
