package ai

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo  map[*ssa.BasicBlock]int
	head map[*ssa.BasicBlock]*Loop
}

// LoopRun is one analysed loop at its fixpoint.
type LoopRun struct {
	Exits  []*State  // where the loop is left
	Outs   []Outcome // where the function or program ends within
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Entry  *State          // state when the loop is reached
	More   []*Path         // other paths that reach it
	Head   *State          // state at the start of an arbitrary iteration
	Syms   []*Term         // symbols for what changes from iteration to iteration
	Init   map[*Term]*Term // their values at entry
	Inv    []*Term         // invariants found
	Ev     *Event          // the loop event
	Backs  []LoopBack

	MoreInit []map[*Term]*Term // values of the symbols on the paths of More
}

// LoopBack is one way to complete an iteration.
type LoopBack struct {
	Path *Path
	Next map[*Term]*Term // value of the symbols in the next iteration
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	x.loopsInit()
	if l, ok := x.loops[fn]; ok {
		return l
	}
	li := &loopInfo{rpo: map[*ssa.BasicBlock]int{}, head: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		li.rpo[b] = len(post) - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if li.rpo[s] > li.rpo[b] {
				continue
			}
			if !s.Dominates(b) {
				x.fail("irreducible control flow in %s", fn)
				continue
			}
			l := li.head[s]
			if l == nil {
				l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.head[s] = l
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				c := st[len(st)-1]
				st = st[:len(st)-1]
				if l.blocks[c] {
					continue
				}
				l.blocks[c] = true
				st = append(st, c.Preds...)
			}
		}
	}
	x.loops[fn] = li
	return li
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// constTest reports whether the test at the header folds to a constant.
func (x *Exec) constTest(fr *Frame, p *Path, l *Loop) bool {
	last, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[l.header.Succs[0]] && l.blocks[l.header.Succs[1]] {
		return false
	}
	for _, i := range l.header.Instrs {
		switch i.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.Convert, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Call:
			if _, ok := i.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		default:
			return false
		}
	}
	q := p.fork()
	x.rec++
	defer func() { x.rec-- }()
	x.phis(fr, q)
	for q.idx < len(l.header.Instrs)-1 {
		ins := l.header.Instrs[q.idx]
		q.idx++
		if c, ok := ins.(*ssa.Call); ok {
			_, args := x.callArgs(fr, q, &c.Call)
			q.env[c] = x.builtin(fr, q.St, c, c.Call.Value.(*ssa.Builtin), &c.Call, args)
			continue
		}
		x.simple(fr, q, ins)
	}
	return x.val(fr, q, last.Cond).IsConst()
}

func (x *Exec) unroll(fr *Frame, p *Path, l *Loop) (exits []*Path, outs []Outcome, ok bool) {
	cur := []*Path{p.fork()}
	for it := 0; it <= 40; it++ {
		for _, q := range cur {
			if !x.constTest(fr, q, l) {
				return nil, nil, false
			}
		}
		var next []*Path
		for _, q := range cur {
			x.phis(fr, q)
			q.start = true
			b, e, o := x.run(fr, []*Path{q}, l)
			next = append(next, b...)
			exits = append(exits, e...)
			outs = append(outs, o...)
		}
		if len(next) == 0 {
			return exits, outs, true
		}
		if len(next) > 4 {
			next = x.mergePaths(fr, next)
			if len(next) > 4 {
				return nil, nil, false
			}
		}
		cur = next
	}
	return nil, nil, false
}

// sameEntry takes those paths out of a work list that reach a loop as p does,
// with other memory.
func (x *Exec) sameEntry(fr *Frame, p *Path, work []*Path, l *Loop) (same, rest []*Path) {
	simple := func(q *Path) bool { return !x.constTest(fr, q, l) && x.peel(fr, q, l) == nil }
	first := true
	lv := x.liveAt(fr.Fn, l.header, nil, 0)
next:
	for _, q := range work {
		if q.block != p.block || q.idx != 0 || q.start || len(q.defers) != len(p.defers) {
			rest = append(rest, q)
			continue
		}
		for v := range lv {
			if p.env[v] != q.env[v] {
				rest = append(rest, q)
				continue next
			}
		}
		for k, v := range p.St.cells { // nil and other slices are kept apart
			if w, ok := q.St.cells[k]; ok && (newNil(v, w) || newNil(w, v)) {
				rest = append(rest, q)
				continue next
			}
		}
		if first {
			first = false
			if !simple(p) {
				return nil, work
			}
		}
		if !simple(q) {
			rest = append(rest, q)
			continue
		}
		same = append(same, q)
	}
	return same, rest
}

// leaves tells whether a loop that is reached as p does is left without
// another iteration. It is used where a loop makes much be forgotten.
func (x *Exec) leaves(fr *Frame, p *Path, l *Loop) bool {
	if x.Forget == nil {
		return false
	}
	x.rec++
	defer func() { x.rec-- }()
	q := p.fork()
	x.phis(fr, q)
	q.start = true
	bs, _, _ := x.run(fr, []*Path{q}, l)
	return len(bs) == 0
}

func (x *Exec) doLoop(fr *Frame, p *Path, l *Loop, more ...*Path) ([]*Path, []Outcome) {
	var once, rest []*Path
	for _, q := range append([]*Path{p}, more...) {
		if x.leaves(fr, q, l) {
			q = q.fork()
			lr := &LoopRun{Fn: fr.Fn, Header: l.header, Entry: q.St.Clone()}
			x.phis(fr, q)
			q.start = true
			lr.Ev = x.event(fr, q.St, "loop", "", nil, nil, l.header.Instrs[0])
			lr.Ev.Loop = lr
			lr.Head = q.St.Clone()
			if x.rec == 0 && x.OnLoop != nil {
				x.OnLoop(lr)
			}
			once = append(once, q)
		} else {
			rest = append(rest, q)
		}
	}
	if len(once) > 0 {
		_, exits, outs := x.run(fr, once, l)
		if len(rest) > 0 {
			e, o := x.doLoop(fr, rest[0], l, rest[1:]...)
			exits, outs = append(exits, e...), append(outs, o...)
		}
		return exits, outs
	}
	if len(more) > 0 {
		return x.fixpoint(fr, p, l, more...)
	}
	if x.constTest(fr, p, l) {
		if x.rec > 0 {
			if e, o, ok := x.unroll(fr, p, l); ok {
				return e, o
			}
		} else {
			x.rec++
			_, _, ok := x.unroll(fr, p, l)
			x.rec--
			if ok {
				e, o, _ := x.unroll(fr, p, l)
				return e, o
			}
		}
	}
	if q := x.peel(fr, p, l); q != nil {
		x.phis(fr, q)
		q.start = true
		bs, exits, outs := x.run(fr, []*Path{q}, l)
		if len(bs) > 4 {
			bs = x.mergePaths(fr, bs)
		}
		for _, b := range bs {
			e, o := x.fixpoint(fr, b, l)
			exits = append(exits, e...)
			outs = append(outs, o...)
		}
		return exits, outs
	}
	return x.fixpoint(fr, p, l)
}

// peel tells whether the first iteration is better looked at on its own: it
// gives a slice that is nil before a value that is known by a name. It returns
// the path to start from.
func (x *Exec) peel(fr *Frame, p *Path, l *Loop) *Path {
	phis := phisOf(l.header)
	vals := x.phiVals(fr, p, l.header)
	some := false
	for i := range phis {
		if v := vals[i]; v.Op == OSlice && v.A[4].True() {
			some = true
		}
	}
	if !some {
		return nil
	}
	x.rec++
	defer func() { x.rec-- }()
	q := p.fork()
	x.phis(fr, q)
	q.start = true
	bs, _, _ := x.run(fr, []*Path{q}, l)
	if len(bs) == 0 {
		return nil
	}
	good := make([]bool, len(phis))
	for i := range phis {
		good[i] = vals[i].Op == OSlice && vals[i].A[4].True()
	}
	for _, b := range bs {
		bv := x.phiVals(fr, b, l.header)
		for i := range phis {
			good[i] = good[i] && Root(bv[i]) != nil
		}
	}
	for _, g := range good {
		if g {
			return p.fork()
		}
	}
	return nil
}

// ------------------------------------------------------------ fixpoint

type gen struct {
	x     *Exec
	mark  uint64
	lsym  map[*Term]bool  // symbols of this loop
	init  map[*Term]*Term // entry value
	syms  []*Term
	g     *State
	bs    []*Path
	memo  map[string]*Term
	claim map[*Term]string // symbol -> tuple it stands for in this round
	next  []map[*Term]*Term
	known map[*Term]bool
	chg   bool
	regs  map[*Term]*Reg // regions of new region symbols
}

func hasSymAfter(t *Term, mark uint64) bool {
	r := false
	t.Walk(func(u *Term) bool {
		if u.Op == OSym && u.K > mark {
			r = true
		}
		return !r
	})
	return r
}

func symsAfter(t *Term, mark uint64) []*Term {
	var r []*Term
	t.Walk(func(u *Term) bool {
		if u.Op == OSym && u.K > mark {
			r = append(r, u)
		}
		return true
	})
	return r
}

var objMemo = map[*Term][]*Term{}

func objsOf(t *Term) []*Term {
	if r, ok := objMemo[t]; ok {
		return r
	}
	var r []*Term
	t.Walk(func(u *Term) bool {
		if u.Op == OObj {
			r = append(r, u)
		}
		return true
	})
	objMemo[t] = r
	return r
}

func (x *Exec) knownObjs(p *Path) map[*Term]bool {
	m := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, o := range objsOf(t) {
			m[o] = true
		}
	}
	for fr := len(x.frames) - 1; fr >= 0; fr-- {
		for _, b := range x.frames[fr].bind {
			add(b)
		}
	}
	for _, t := range p.env {
		add(t)
	}
	for k, v := range p.St.cells {
		add(k.base)
		add(v)
	}
	for k, r := range p.St.regs {
		add(k)
		add(r.ver)
	}
	for k, c := range p.St.maps {
		add(k)
		add(c.ver)
	}
	return m
}

func (g *gen) stable(t *Term) bool { return !hasSymAfter(t, g.mark) && g.objsKnown(t) }
func (g *gen) objsKnown(t *Term) bool {
	for _, o := range objsOf(t) {
		if !g.known[o] && !strings.HasPrefix(o.S, "global:") {
			return false
		}
	}
	return true
}

func tupleKey(a *Term, bs []*Term) string {
	var sb strings.Builder
	sb.WriteString(itoa(int64(a.ID)))
	for _, b := range bs {
		sb.WriteByte(',')
		sb.WriteString(itoa(int64(b.ID)))
	}
	return sb.String()
}

// counted tells if there is a symbol for these values already.
func (g *gen) counted(a *Term, bs []*Term) bool {
	_, ok := g.memo[tupleKey(a, bs)]
	return ok
}

func (g *gen) tuple(a *Term, bs []*Term) *Term {
	k := tupleKey(a, bs)
	if s, ok := g.memo[k]; ok {
		return s
	}
	var s *Term
	if g.lsym[a] && g.claim[a] == "" {
		s = a
		g.claim[a] = k
	} else {
		w, typ := a.W, a.T
		for _, b := range bs {
			if typ == nil {
				typ = b.T
			}
			if b.W > 0 {
				w = b.W
			}
		}
		if typ == nil && (isStrTerm(a) || anyStr(bs)) {
			typ = types.Typ[types.String]
		}
		if typ == nil && isBoolTerm(a) {
			typ = types.Typ[types.Bool]
		}
		s = Sym("l", w, typ)
		g.lsym[s] = true
		g.syms = append(g.syms, s)
		g.claim[s] = k
		g.init[s] = Subst(a, g.init)
		g.chg = true
	}
	g.memo[k] = s
	for i, b := range bs {
		g.next[i][s] = b
	}
	return s
}

func anyStr(bs []*Term) bool {
	for _, b := range bs {
		if isStrTerm(b) {
			return true
		}
	}
	return false
}

func (g *gen) term(a *Term, bs []*Term) *Term {
	same := true
	for _, b := range bs {
		if b != a {
			same = false
		}
	}
	if same && g.stable(a) {
		return a
	}
	if g.lsym[a] {
		return g.tuple(a, bs)
	}
	shape := true
	for _, b := range bs {
		if b.Op != a.Op || len(b.A) != len(a.A) || b.S != a.S || b.W != a.W || b.K != a.K {
			shape = false
		}
		if (a.Op == OClo) && a.X != b.X {
			shape = false
		}
	}
	if shape {
		switch a.Op {
		case OStruct, OTuple, OPtr, OIface, OClo:
			return g.kids(a, bs)
		case OApp:
			if a.W == 0 {
				return g.kids(a, bs)
			}
			if same && len(a.A) > 0 {
				return g.kids(a, bs)
			}
		case OSlice:
			if t := g.root(a, bs); t != nil {
				return t
			}
			col := make([]*Term, len(bs))
			na := make([]*Term, 5)
			for i := 1; i < 5; i++ {
				for j, b := range bs {
					col[j] = b.A[i]
				}
				na[i] = g.term(a.A[i], col)
			}
			for j, b := range bs {
				col[j] = b.A[0]
			}
			na[0] = g.region(a, bs, col, na[2])
			return Rebuild(a, na)
		}
	}
	if a.Op == OBool && same {
		return a
	}
	return g.tuple(a, bs)
}

func (g *gen) kids(a *Term, bs []*Term) *Term {
	na := make([]*Term, len(a.A))
	for i := range a.A {
		col := make([]*Term, len(bs))
		for j, b := range bs {
			col[j] = b.A[i]
		}
		na[i] = g.term(a.A[i], col)
	}
	return Rebuild(a, na)
}

// root generalises slices that are values known by a name and not written to.
func (g *gen) root(a *Term, bs []*Term) *Term {
	pristine := func(st *State, s *Term) *Term {
		r := Root(s)
		if r == nil || s.A[4] != App("isnil", 0, r) || s != g.x.SliceOf(r) {
			return nil
		}
		if rg, ok := st.regs[s.A[0]]; ok && (rg.w != nil || rg.sum != nil || rg.raw != s.A[0]) {
			return nil
		}
		return r
	}
	r := pristine(g.g, a)
	if r == nil {
		return nil
	}
	col := make([]*Term, len(bs))
	for i, b := range bs {
		if col[i] = pristine(g.bs[i].St, b); col[i] == nil {
			return nil
		}
	}
	if r.T == nil {
		for _, c := range col {
			if c.T != nil {
				r.T = c.T
			}
		}
	}
	return g.x.SliceOf(g.term(r, col))
}

// region generalises the region of slices of length l.
func (g *gen) region(a *Term, bs []*Term, col []*Term, l *Term) *Term {
	r := a.A[0]
	same := g.stable(r)
	for _, c := range col {
		if c != r {
			same = false
		}
	}
	if same {
		return r
	}
	s := g.tuple(r, col)
	if _, done := g.regs[s]; done {
		return s
	}
	// content
	var et types.Type
	get := func(st *State, t *Term) *Reg {
		if t.Op == ONil {
			return nil
		}
		rg := st.Reg(t, nil)
		if et == nil {
			et = rg.elem
		}
		return rg
	}
	var regs []*Reg
	ra := get(g.g, r)
	for i, c := range col {
		regs = append(regs, get(g.bs[i].St, c))
	}
	if rg := g.growAppend(ra, a.A[2], regs, bs, et, l); rg != nil {
		g.regs[s] = rg
		return s
	}
	g.regs[s] = g.joinRegs(s, ra, a.A[2], regs, bs, et)
	return s
}

// growAppend generalises appending one element in every iteration.
func (g *gen) growAppend(ra *Reg, la *Term, regs []*Reg, bs []*Term, et types.Type, l *Term) *Reg {
	if et == nil || !g.lsym[l] {
		return nil
	}
	if w, _ := width(et); w == 8 {
		return nil
	}
	for i, b := range bs {
		if regs[i] == nil || b.A[1] != I64(0) || b.A[2] != AddK(la, 1) {
			return nil
		}
	}
	if la == I64(0) {
		for _, r := range regs {
			if !r.zero || r.sum != nil || r.val != nil || r.w == nil || r.w.kind != wElem || r.w.off != I64(0) || r.w.prev != nil {
				return nil
			}
		}
		g.chg = true
		out := &Reg{elem: et, zero: true}
		out.w = &Write{kind: wComp, off: I64(0), n: l, val: compPending}
		out.ver = out.w.verTerm(out.baseVer())
		return out
	}
	if ra == nil || ra.w == nil || ra.w.kind != wComp || ra.w.n != la || la != l {
		return nil
	}
	return g.growComp(ra, regs)
}

// joinRegs describes an array that is ra at first and one of regs later.
func (g *gen) joinRegs(s *Term, ra *Reg, la *Term, regs []*Reg, bs []*Term, et types.Type) *Reg {
	out := &Reg{elem: et}
	if w := 0; et != nil {
		if w, _ = width(et); w == 8 {
			out.raw, out.ver = s, s
			return out
		}
	}
	if et == nil {
		out.raw, out.ver = s, s
		return out
	}
	var sum *Summary
	okAll := true
	add := func(st *State, rg *Reg, l *Term) {
		if rg == nil || l != nil && st.Facts.Holds(Eq(l, I64(0))) > 0 {
			return
		}
		vs, ok := g.elems(st, rg, et, 0)
		if !ok {
			okAll = false
			return
		}
		for _, v := range vs {
			sum = g.joinSum(sum, v.v, v.st, et)
		}
	}
	if ra != nil && ra.sum != nil && ra.w == nil {
		sum = ra.sum
	} else {
		add(g.g, ra, la)
	}
	for i, rg := range regs {
		var l *Term
		if bs != nil {
			l = bs[i].A[2]
		}
		add(g.bs[i].St, rg, l)
	}
	out.raw = s
	if okAll && sum != nil {
		out.sum = sum
		out.ver = App("sumreg", 0, s, sum.term())
	} else if okAll && sum == nil {
		out.zero = true
		out.ver = App("zeroreg", 0)
	} else {
		out.ver = s
	}
	return out
}

type elemVal struct {
	v  *Term
	st *State
}

func (g *gen) elems(st *State, r *Reg, et types.Type, depth int) ([]elemVal, bool) {
	var out []elemVal
	if depth > 4 {
		return nil, false
	}
	for w := r.w; w != nil; w = w.prev {
		switch w.kind {
		case wElem, wFill:
			out = append(out, elemVal{w.val, st})
		case wComp:
			if w.val == compPending {
				continue
			}
			i := Sym("ei", 64, types.Typ[types.Int])
			s := st.Clone()
			g.x.Assume(s, Le(true, w.off, i))
			g.x.Assume(s, Lt(true, i, Add(w.off, w.n)))
			for _, f := range w.factsAt(i) {
				g.x.Assume(s, f)
			}
			out = append(out, elemVal{w.at(i), s})
		case wCopy:
			v, ok := g.elems(st, w.src, et, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, v...)
			if w.off == I64(0) && w.src != nil && r.zero {
				// an append: everything before is the copy
			}
		default:
			return nil, false
		}
		if w.kind == wCopy && w.off == I64(0) && r.zero {
			return out, true
		}
	}
	switch {
	case r.sum != nil:
		st2 := st.Clone()
		m := map[*Term]*Term{}
		for _, h := range r.sum.Holes {
			m[h] = Sym(h.S, h.W, h.T)
		}
		for _, f := range r.sum.Facts {
			st2.Facts = st2.Facts.Add(Subst(f, m))
		}
		out = append(out, elemVal{Subst(r.sum.Tmpl, m), st2})
	case r.val != nil:
		for _, v := range r.val.A {
			out = append(out, elemVal{v, st})
		}
	case r.zero:
		if r.w == nil && (r.n == nil || r.n != I64(0)) {
			out = append(out, elemVal{g.x.Zero(et), st})
		} else if r.w != nil && r.n != nil {
			out = append(out, elemVal{g.x.Zero(et), st})
		}
	default:
		out = append(out, elemVal{g.x.rawRead(r.raw, Sym("ei", 64, nil), et), st})
	}
	return out, true
}

// joinSum makes a summary cover another element value.
func (g *gen) joinSum(sum *Summary, v *Term, st *State, et types.Type) *Summary {
	// objects made in the loop become unknown pointers
	m := map[*Term]*Term{}
	for _, o := range objsOf(v) {
		if !g.known[o] && !strings.HasPrefix(o.S, "global:") {
			s := Sym("o", 0, o.T)
			m[o] = s
		}
	}
	if len(m) > 0 {
		v = Subst(v, m)
	}
	if sum == nil {
		holes := symsAfter(v, g.mark)
		hs := map[*Term]bool{}
		for _, h := range holes {
			hs[h] = true
		}
		parts := map[*Term]bool{}
		v.Walk(func(u *Term) bool {
			if u.Op == OApp && u.W == 0 && len(u.A) > 0 && u.S != "reg" {
				parts[u] = true
			}
			return true
		})
		var fs []*Term
		st.Facts.Each(func(f *Term) bool {
			ss := symsAfter(f, g.mark)
			if len(ss) == 0 && !hasAny(f, parts) {
				return true
			}
			for _, s := range ss {
				if !hs[s] {
					return true
				}
			}
			if g.objsKnown(f) {
				fs = append(fs, f)
			}
			return true
		})
		// rename the holes
		rn := map[*Term]*Term{}
		var nh []*Term
		for _, h := range holes {
			n := Sym("h", h.W, h.T)
			rn[h] = n
			nh = append(nh, n)
		}
		for i := range fs {
			fs[i] = Subst(fs[i], rn)
		}
		return &Summary{Tmpl: Subst(v, rn), Holes: nh, Facts: fs}
	}
	b := map[*Term]*Term{}
	hole := map[*Term]bool{}
	for _, h := range sum.Holes {
		hole[h] = true
	}
	if match(sum.Tmpl, v, hole, b) {
		keep := sum.Facts[:0:0]
		for _, f := range sum.Facts {
			if st.Facts.Holds(Subst(f, b)) > 0 {
				keep = append(keep, f)
			}
		}
		if len(keep) == len(sum.Facts) {
			return sum
		}
		return &Summary{Tmpl: sum.Tmpl, Holes: sum.Holes, Facts: keep}
	}
	// anti-unify
	memo := map[[2]*Term]*Term{}
	whole := map[*Term]*Term{} // compound terms that are rewritten
	var holes []*Term
	var au func(a, c *Term) *Term
	au = func(a, c *Term) *Term {
		if a == c && a.IsConst() {
			return a
		}
		if !hole[a] && a == c && !hasHole(a, hole) {
			return a
		}
		if r, ok := memo[[2]*Term{a, c}]; ok {
			return r
		}
		if a.Op == c.Op && a.S == c.S && a.W == c.W && a.K == c.K && len(a.A) == len(c.A) && a.X == c.X && len(a.A) > 0 {
			if a.Op == OSlice {
				if ra, rc := Root(a), Root(c); ra != nil && rc != nil && g.x.SliceOf(ra) == a && g.x.SliceOf(rc) == c {
					if ra.T == nil {
						ra.T = rc.T
					}
					return g.x.SliceOf(au(ra, rc))
				}
			}
			switch a.Op {
			case OStruct, OTuple, OPtr, OIface, OApp, OSlice, OClo:
				na := make([]*Term, len(a.A))
				for i := range a.A {
					na[i] = au(a.A[i], c.A[i])
				}
				t := Rebuild(a, na)
				if a.Op == OApp && t != a {
					if t.T == nil {
						t.T = a.T
					}
					whole[a] = t
				}
				return t
			}
		}
		typ := a.T
		if typ == nil {
			typ = c.T
		}
		if typ == nil && (isStrTerm(a) || isStrTerm(c)) {
			typ = types.Typ[types.String]
		}
		w := a.W
		if c.W > 0 {
			w = c.W
		}
		h := Sym("h", w, typ)
		memo[[2]*Term{a, c}] = h
		holes = append(holes, h)
		return h
	}
	t := au(sum.Tmpl, v)
	nm := map[*Term]*Term{} // old hole -> new hole
	nb := map[*Term]*Term{}
	var defs [][2]*Term // sums of holes that become one hole
	for k, h := range memo {
		if k[0].Op == OLin && h.W == k[0].W {
			defs = append(defs, [2]*Term{k[0], h})
		}
		if hole[k[0]] {
			if _, dup := nm[k[0]]; !dup {
				nm[k[0]] = h
			}
		}
		nb[h] = k[1]
	}
	var fs []*Term
	sort.Slice(defs, func(i, j int) bool { return defs[i][1].S < defs[j][1].S })
	for _, f := range sum.Facts {
		for _, d := range defs {
			f = foldLin(f, d[0], d[1])
		}
		f = replaceTerms(f, whole)
		ok := true
		for _, s := range symsAfter(f, g.mark) {
			if hole[s] && nm[s] == nil {
				ok = false
			}
		}
		if !ok {
			continue
		}
		nf := Subst(f, nm)
		if nf.IsConst() {
			continue
		}
		if st.Facts.Holds(Subst(nf, nb)) > 0 {
			fs = append(fs, nf)
		}
	}
	return &Summary{Tmpl: t, Holes: holes, Facts: fs}
}

func hasAny(t *Term, m map[*Term]bool) bool {
	r := false
	t.Walk(func(u *Term) bool {
		r = r || m[u]
		return !r
	})
	return r
}

// replaceTerms replaces the outermost occurrences of terms.
func replaceTerms(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.A) == 0 || len(m) == 0 {
		return t
	}
	na := make([]*Term, len(t.A))
	ch := false
	for i, a := range t.A {
		na[i] = replaceTerms(a, m)
		ch = ch || na[i] != a
	}
	if !ch {
		return t
	}
	return Rebuild(t, na)
}

func hasHole(t *Term, hole map[*Term]bool) bool {
	r := false
	t.Walk(func(u *Term) bool {
		if hole[u] {
			r = true
		}
		return !r
	})
	return r
}

// match instantiates holes of a template.
func match(t, v *Term, hole map[*Term]bool, b map[*Term]*Term) bool {
	if hole[t] {
		if o, ok := b[t]; ok {
			return o == v
		}
		if t.W != v.W {
			return false
		}
		b[t] = v
		return true
	}
	if t == v {
		return !hasHole(t, hole) || func() bool {
			ok := true
			t.Walk(func(u *Term) bool {
				if hole[u] {
					if o, k := b[u]; k && o != u {
						ok = false
					}
					b[u] = u
				}
				return ok
			})
			return ok
		}()
	}
	if t.Op != v.Op || t.S != v.S || t.W != v.W || t.K != v.K || len(t.A) != len(v.A) || len(t.A) == 0 || t.X != v.X && t.Op != OIface {
		if t.Op == OLin && t.W == v.W { // solve for a single hole
			var h *Term
			for i, a := range t.A {
				if hole[a] && b[a] == nil {
					if h != nil || t.Co[i] != 1 && t.Co[i] != mask(t.W) {
						return false
					}
					h = a
				}
			}
			if h == nil {
				return Subst(t, b) == v
			}
			for i, a := range t.A {
				if a == h {
					rest := Sub(t, Lin(t.W, 0, []uint64{t.Co[i]}, []*Term{h}))
					d := Sub(v, Subst(rest, b))
					if t.Co[i] != 1 {
						d = Neg(d)
					}
					b[h] = d
					return Subst(t, b) == v
				}
			}
		}
		return false
	}
	if t.Op == OLin {
		for i := range t.Co {
			if t.Co[i] != v.Co[i] {
				return false
			}
		}
	}
	for i := range t.A {
		if !match(t.A[i], v.A[i], hole, b) {
			return false
		}
	}
	return true
}

func (x *Exec) defaultCell(k cellKey, v *Term) bool {
	d := App("*"+k.path, v.W, k.base)
	if v == d {
		return true
	}
	if v.Op == OSlice {
		return v == x.SliceOf(App("*"+k.path, 0, k.base))
	}
	return false
}

func zeroLike(v *Term) *Term {
	switch {
	case v.W > 0:
		return Int(v.W, 0)
	case v.Op == OSlice:
		return NilSlice
	case isStrTerm(v):
		return Str("")
	case isBoolTerm(v):
		return Bool(false)
	case v.Op == OFloat:
		return mk(OFloat, 0, 0, "0", nil, nil)
	}
	return Nil
}

// state generalises the memory.
func (g *gen) state() *State {
	x := g.x
	n := g.g.Clone()
	keys := map[cellKey]bool{}
	for k := range g.g.cells {
		keys[k] = true
	}
	for _, b := range g.bs {
		for k := range b.St.cells {
			keys[k] = true
		}
	}
	var ks []cellKey
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].base != ks[j].base {
			return ks[i].base.ID < ks[j].base.ID
		}
		return ks[i].path < ks[j].path
	})
	for _, k := range ks {
		ghost := strings.HasPrefix(k.path, "!")
		if ghost && x.Forget != nil && x.Forget(k.base, k.path[1:]) {
			delete(n.cells, k)
			continue
		}
		if !g.stable(k.base) {
			// location varies from iteration to iteration
			if k.base.Op != OObj && !ghost {
				for _, b := range g.bs {
					if v, ok := b.St.cells[k]; ok && !x.defaultCell(k, v) && !x.freshPtr(k.base) {
						x.fail("store through a pointer that varies in a loop: %s%s in %s", k.base.Short(), k.path, x.stack[len(x.stack)-1])
					}
				}
			}
			delete(n.cells, k)
			continue
		}
		def := func(st *State, like *Term) *Term {
			if v, ok := st.cells[k]; ok {
				return v
			}
			if ghost {
				return Str("absent")
			}
			if st.zeroed(k.base) {
				return zeroLike(like)
			}
			if like.Op == OSlice {
				pre := "*"
				if k.base.Op == OObj {
					pre = "global"
				}
				return x.SliceOf(App(pre+k.path, 0, k.base))
			}
			pre := "*"
			if k.base.Op == OObj {
				pre = "global"
			}
			return App(pre+k.path, like.W, k.base)
		}
		var like *Term
		if v, ok := g.g.cells[k]; ok {
			like = v
		} else {
			for _, b := range g.bs {
				if v, ok := b.St.cells[k]; ok {
					like = v
					break
				}
			}
		}
		a := def(g.g, like)
		bs := make([]*Term, len(g.bs))
		for i, b := range g.bs {
			bs[i] = def(b.St, like)
		}
		v := g.term(a, bs)
		if ghost && v == Str("absent") {
			delete(n.cells, k)
		} else {
			n.cells[k] = v
		}
	}
	// regions
	rk := map[*Term]bool{}
	for k := range g.g.regs {
		rk[k] = true
	}
	for _, b := range g.bs {
		for k := range b.St.regs {
			rk[k] = true
		}
	}
	var rs []*Term
	for k := range rk {
		rs = append(rs, k)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
	for _, k := range rs {
		if g.lsym[k] {
			continue
		}
		if !g.stable(k) {
			delete(n.regs, k)
			continue
		}
		// where not touched, the default content
		var typ types.Type
		for _, b := range g.bs {
			if r, ok := b.St.regs[k]; ok && r.elem != nil {
				typ = r.elem
			}
		}
		ra := g.g.Reg(k, typ)
		var rb []*Reg
		same := true
		for _, b := range g.bs {
			r := b.St.Reg(k, typ)
			rb = append(rb, r)
			if r.ver != ra.ver {
				same = false
			}
		}
		if same && (ra.ver == nil || g.stable(ra.ver)) {
			n.regs[k] = ra
			continue
		}
		n.regs[k] = g.reg(k, ra, rb)
	}
	for s, r := range g.regs {
		n.regs[s] = r
	}
	// maps
	mk := map[*Term]bool{}
	for k := range g.g.maps {
		mk[k] = true
	}
	for _, b := range g.bs {
		for k := range b.St.maps {
			mk[k] = true
		}
	}
	var ms []*Term
	for k := range mk {
		ms = append(ms, k)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	for _, k := range ms {
		if !g.stable(k) {
			delete(n.maps, k)
			continue
		}
		a := g.g.Map(k)
		same := true
		for _, b := range g.bs {
			if b.St.Map(k).ver != a.ver {
				same = false
			}
		}
		if same && g.stable(a.ver) {
			n.maps[k] = a
			continue
		}
		n.maps[k] = g.mapc(k, a)
	}
	n.alloc = map[string]int{}
	for k, v := range g.g.alloc {
		n.alloc[k] = v
	}
	return n
}

// freshPtr: pointers to objects that nothing else can refer to.
func (x *Exec) freshPtr(t *Term) bool { return false }

func (g *gen) reg(k *Term, ra *Reg, rb []*Reg) *Reg {
	// complete small arrays
	if ra.val != nil && ra.w == nil {
		ok := true
		var bs []*Term
		for _, r := range rb {
			if r.val == nil || r.w != nil {
				ok = false
				break
			}
			bs = append(bs, r.val)
		}
		if ok {
			v := g.term(ra.val, bs)
			if v.Op == OStruct {
				return &Reg{elem: ra.elem, n: ra.n, val: v, ver: v}
			}
		}
	}
	// a fill that grows
	if f := g.growFill(ra, rb); f != nil {
		return f
	}
	if f := g.growComp(ra, rb); f != nil {
		return f
	}
	col := make([]*Term, len(rb))
	for i, r := range rb {
		col[i] = r.ver
	}
	if ra.ver.Op == OSym && g.lsym[ra.ver] || ra.raw != nil && g.lsym[ra.raw] {
		s := ra.raw
		if s == nil {
			s = ra.ver
		}
		// already generalised
		if ra.w == nil {
			r := g.joinRegs(s, ra, nil, rb, nil, ra.elem)
			r.n = ra.n
			if r.ver != ra.ver {
				g.chg = true
			} else {
				return ra
			}
			return r
		}
	}
	s := Sym("r", 0, nil)
	g.lsym[s] = true
	g.init[s] = ra.ver
	g.chg = true
	r := g.joinRegs(s, ra, nil, rb, nil, ra.elem)
	r.n = ra.n
	return r
}

// growFill generalises filling an array with a constant from the start of a range.
func (g *gen) growFill(ra *Reg, rb []*Reg) *Reg {
	aw := ra.w
	var base *Write
	var af *Write
	if aw != nil && aw.kind == wFill {
		same := true
		for _, r := range rb {
			if r.w == nil || r.w.kind != wFill || r.w.prev != aw.prev || r.w.off != aw.off || r.w.val != aw.val {
				same = false
			}
		}
		if same {
			af, base = aw, aw.prev
		}
	}
	if af == nil {
		base = aw
		var w *Write
		for _, r := range rb {
			if r.w == nil || r.w.kind != wFill || r.w.prev != base {
				return nil
			}
			if w != nil && (w.off != r.w.off || w.val != r.w.val) {
				return nil
			}
			w = r.w
		}
		if w == nil || !g.stable(w.off) {
			return nil
		}
		af = &Write{prev: base, kind: wFill, off: w.off, n: I64(0), val: w.val}
	}
	for _, r := range rb {
		if r.raw != ra.raw || r.zero != ra.zero || r.sum != ra.sum || r.val != ra.val {
			return nil
		}
	}
	ns := make([]*Term, len(rb))
	for i, r := range rb {
		ns[i] = r.w.n
	}
	n := g.term(af.n, ns)
	c := *ra
	c.w = base
	c.ver = c.baseVer()
	for _, q := range c.writes() {
		c.ver = q.verTerm(c.ver)
	}
	nw := Write{prev: base, kind: wFill, off: af.off, n: n, val: af.val}
	c.w = &nw
	c.ver = nw.verTerm(c.ver)
	if ra.ver != c.ver {
		g.chg = true
	}
	return &c
}

// growComp generalises filling an array element after element with values that
// are given by their position.
func (g *gen) growComp(ra *Reg, rb []*Reg) *Reg {
	for _, r := range rb {
		if r.raw != ra.raw || r.zero != ra.zero || r.sum != ra.sum || r.val != ra.val {
			return nil
		}
	}
	aw := ra.w
	one := func(prev *Write) (off *Term) {
		for _, r := range rb {
			if r.w == nil || r.w.kind != wElem && r.w.kind != wFill || r.w.prev != prev || r.w.n != I64(1) {
				return nil
			}
			if off != nil && off != r.w.off {
				return nil
			}
			off = r.w.off
		}
		return off
	}
	var nw Write
	if aw != nil && (aw.kind == wComp || aw.kind == wFill) && aw.n.Op != OInt {
		off := one(aw)
		s, c := aw.n, I64(0)
		if s.Op != OSym {
			for _, u := range symsAfter(aw.n, g.mark) {
				if d := Sub(aw.n, u); d.Op == OInt {
					s, c = u, d
				}
			}
		}
		if off == nil || off != Add(aw.off, aw.n) || !g.lsym[s] {
			return nil
		}
		var tm *Term
		for _, r := range rb {
			t := Subst(r.w.val, map[*Term]*Term{s: Sub(Sub(compAt, aw.off), c)})
			if tm != nil && t != tm || !g.stable(Subst(t, map[*Term]*Term{compAt: I64(0)})) {
				return nil
			}
			tm = t
		}
		if aw.val != tm {
			if aw.kind == wComp && aw.val != compPending {
				return nil
			}
			g.chg = true
		}
		ns := make([]*Term, len(rb))
		for i := range rb {
			ns[i] = AddK(s, 1)
		}
		n := Add(g.term(s, ns), c)
		nw = Write{prev: aw.prev, kind: wComp, off: aw.off, n: n, val: tm, facts: g.compFacts(s, map[*Term]*Term{s: Sub(Sub(compAt, aw.off), c)}, tm)}
	} else {
		off := one(aw)
		if off == nil || off.W != 64 || !g.stable(off) {
			return nil
		}
		// a counter of the iterations
		var n *Term
		for _, k := range []int64{0, -1, 1} {
			ns := make([]*Term, len(rb))
			for i := range rb {
				ns[i] = I64(k + 1)
			}
			if g.counted(I64(k), ns) {
				n = AddK(g.term(I64(k), ns), -k)
				break
			}
		}
		if n == nil {
			ns := make([]*Term, len(rb))
			for i := range rb {
				ns[i] = I64(1)
			}
			n = g.term(I64(0), ns)
		}
		g.chg = true
		nw = Write{prev: aw, kind: wComp, off: off, n: n, val: compPending}
	}
	c := *ra
	c.w = nw.prev
	c.ver = c.baseVer()
	for _, q := range c.writes() {
		c.ver = q.verTerm(c.ver)
	}
	c.w = &nw
	c.ver = nw.verTerm(c.ver)
	if ra.ver != c.ver {
		g.chg = true
	}
	return &c
}

// compFacts are the facts about the element written in an iteration, which is
// numbered s; at gives the number from the position.
func (g *gen) compFacts(s *Term, at map[*Term]*Term, tm *Term) []*Term {
	var fs []*Term
	sub := map[*Term]bool{}
	tm.Walk(func(u *Term) bool { sub[u] = true; return true })
	for i, b := range g.bs {
		if i == 0 {
			b.St.Facts.Each(func(f *Term) bool {
				ss := symsAfter(f, g.mark)
				if len(ss) == 1 && ss[0] == s && g.objsKnown(f) {
					// about the element, not only about the counter
					h := Subst(f, at)
					rel := false
					h.Walk(func(u *Term) bool {
						if sub[u] && u != compAt && u.Op == OApp && hasSym(u, compAt) {
							rel = true
						}
						return !rel
					})
					if rel {
						fs = append(fs, f)
					}
				}
				return true
			})
			continue
		}
		keep := fs[:0:0]
		for _, f := range fs {
			if b.St.Facts.Holds(f) > 0 {
				keep = append(keep, f)
			}
		}
		fs = keep
	}
	for i := range fs {
		fs[i] = Subst(fs[i], at)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	return fs
}

func hasSym(t, s *Term) bool {
	r := false
	t.Walk(func(u *Term) bool {
		r = r || u == s
		return !r
	})
	return r
}

var compPending = App("pending", 0)

func (g *gen) mapc(k *Term, a *MapC) *MapC {
	var sum *Summary
	ok := true
	add := func(st *State, c *MapC) {
		for u := c.upd; u != nil; u = u.prev {
			if u.val != nil {
				sum = g.joinSum(sum, Tuple(u.key, u.val), st, nil)
			}
		}
		if c.sum != nil {
			if sum == nil {
				sum = c.sum
			} else if sum != c.sum {
				m := map[*Term]*Term{}
				for _, h := range c.sum.Holes {
					m[h] = Sym(h.S, h.W, h.T)
				}
				st2 := st.Clone()
				for _, f := range c.sum.Facts {
					st2.Facts = st2.Facts.Add(Subst(f, m))
				}
				sum = g.joinSum(sum, Subst(c.sum.Tmpl, m), st2, nil)
			}
		} else if !c.empty {
			ok = false
		}
	}
	if a.upd == nil && a.sum != nil {
		sum = a.sum
	} else {
		add(g.g, a)
	}
	for _, b := range g.bs {
		add(b.St, b.St.Map(k))
	}
	s := a.base
	if !g.lsym[s] || a.upd != nil {
		s = Sym("map", 0, nil)
		g.lsym[s] = true
		g.init[s] = a.ver
		g.chg = true
	}
	c := &MapC{base: s, ver: s}
	if ok {
		c.sum = sum
		c.ver = App("summap", 0, s, sum.term())
		if a.sum != sum {
			g.chg = true
		}
	}
	return c
}

func (x *Exec) fixpoint(fr *Frame, p *Path, l *Loop, more ...*Path) ([]*Path, []Outcome) {
	h := l.header
	phis := phisOf(h)
	entryVals := x.phiVals(fr, p, h)
	mark := uint64(symCount)
	known := x.knownObjs(p)
	for _, v := range entryVals {
		for _, o := range objsOf(v) {
			known[o] = true
		}
	}
	lsym := map[*Term]bool{}
	init := map[*Term]*Term{}
	var syms []*Term
	curVals := entryVals
	curSt := p.St
	facts, trace := p.St.Facts, p.St.Trace
	if len(more) > 0 {
		curSt = p.St.Clone()
		j := p.St
		for _, q := range more {
			for o := range x.knownObjs(q) {
				known[o] = true
			}
			j = x.joinStates(j, q.St)
		}
		curSt.alloc, facts, trace = j.alloc, j.Facts, j.Trace
	}
	if x.Forget != nil {
		curSt = curSt.Clone()
		for k := range curSt.cells {
			if strings.HasPrefix(k.path, "!") && x.Forget(k.base, k.path[1:]) {
				delete(curSt.cells, k)
			}
		}
	}
	dropped := map[*Term]bool{}
	var cands []*Term
	again := 0
	var next []map[*Term]*Term
	makeHead := func() *Path {
		q := p.fork()
		q.St = curSt.Clone()
		q.St.Facts = facts
		q.St.Trace = trace
		for _, c := range cands {
			q.St.Facts = q.St.Facts.Add(c)
		}
		for i, ph := range phis {
			v := curVals[i]
			if v.T == nil && (v.Op == OSym || v.Op == OApp) {
				v.T = ph.Type()
			}
			q.env[ph] = v
		}
		q.block, q.idx, q.start = h, len(phis), true
		return q
	}
	evSaved := x.nev
	var backs []*Path
	rounds := 0
	for ; ; rounds++ {
		if rounds > 40 {
			x.fail("loop analysis does not converge in %s block %d", fr.Fn, h.Index)
			return nil, nil
		}
		x.rec++
		head := makeHead()
		var outs []Outcome
		at := head.St.Clone()
		backs, _, outs = x.run(fr, []*Path{head}, l)
		_ = outs
		backs, _ = x.splitNil(fr, at, curVals, backs, l)
		backs = append(backs[:len(backs):len(backs)], more...)
		x.rec--
		for _, b := range backs {
			if len(b.defers) != len(p.defers) {
				x.fail("defer in a loop in %s", fr.Fn)
			}
		}
		if len(backs) > 40 {
			backs = x.mergePaths(fr, backs)
		}
		g := &gen{x: x, mark: mark, lsym: lsym, init: init, syms: syms, g: curSt, bs: backs, memo: map[string]*Term{}, claim: map[*Term]string{}, known: known, regs: map[*Term]*Reg{}}
		for range backs {
			g.next = append(g.next, map[*Term]*Term{})
		}
		var nv []*Term
		if len(backs) > 0 {
			bv := make([][]*Term, len(backs))
			for i, b := range backs {
				bv[i] = x.phiVals(fr, b, h)
			}
			for i := range phis {
				col := make([]*Term, len(backs))
				for j := range backs {
					col[j] = bv[j][i]
				}
				a := curVals[i]
				if a.T == nil && (a.Op == OSym || a.Op == OApp) {
					a.T = phis[i].Type()
				}
				t := g.term(a, col)
				if t.T == nil && t.Op == OSym {
					t.T = phis[i].Type()
				}
				nv = append(nv, t)
			}
			ns := g.state()
			ch := g.chg
			for i := range nv {
				if nv[i] != curVals[i] {
					ch = true
				}
			}
			if !ch && x.memSig(ns) != x.memSig(curSt) {
				ch = true
			}
			curVals, curSt, syms, next = nv, ns, g.syms, g.next
			if ch {
				cands = x.candidates(fr, p, l, syms, init, backs, next, mark, dropped)
				continue
			}
		}
		// invariants
		var keep []*Term
		for _, c := range cands {
			ok := p.St.Facts.Holds(Subst(c, init)) > 0
			for i, b := range backs {
				if ok && b.St.Facts.Holds(Subst(c, next[i])) <= 0 {
					ok = false
				}
			}
			if os.Getenv("DBGINV") != "" && strings.Contains(fr.Fn.Name(), os.Getenv("DBGINV")) {
				fmt.Println("INV", h.Index, ok, c)
			}
			if ok {
				keep = append(keep, c)
			} else {
				dropped[c] = true
			}
		}
		if len(keep) != len(cands) {
			cands = keep
			continue
		}
		// comparisons of this pass may suggest more invariants
		if again < 1 {
			again++
			have := map[*Term]bool{}
			for _, c := range cands {
				have[c] = true
			}
			n := len(cands)
			for _, c := range x.candidates(fr, p, l, syms, init, backs, next, mark, dropped) {
				if !have[c] {
					cands = append(cands, c)
				}
			}
			if len(cands) > n {
				continue
			}
		}
		break
	}
	_ = evSaved
	// final pass
	head := makeHead()
	lr := &LoopRun{Fn: fr.Fn, Header: h, Entry: p.St, More: more, Syms: syms, Init: init, Inv: cands}
	ev := x.event(fr, head.St, "loop", "", nil, nil, h.Instrs[0])
	ev.Loop = lr
	lr.Ev = ev
	lr.Head = head.St.Clone()
	bs, exits, outs := x.run(fr, []*Path{head}, l)
	bs, late := x.splitNil(fr, lr.Head, curVals, bs, l)
	for _, b := range late {
		_, e, o := x.run(fr, []*Path{b}, l)
		exits, outs = append(exits, e...), append(outs, o...)
	}
	if x.rec == 0 {
		hole := map[*Term]bool{}
		for _, s := range syms {
			hole[s] = true
		}
		symbols := func(b *Path) map[*Term]*Term {
			nx := map[*Term]*Term{}
			bv := x.phiVals(fr, b, h)
			for i := range phis {
				matchLoose(curVals[i], bv[i], hole, nx)
			}
			for k, v := range curSt.cells {
				if w, ok := b.St.cells[k]; ok {
					matchLoose(v, w, hole, nx)
				}
			}
			return nx
		}
		for _, b := range more {
			lr.MoreInit = append(lr.MoreInit, symbols(b))
		}
		for _, b := range bs {
			// value of the symbols in the next iteration
			lr.Backs = append(lr.Backs, LoopBack{Path: b, Next: symbols(b)})
		}
		if x.OnBack != nil {
			for _, b := range bs {
				x.OnBack(lr, b)
			}
		}
		for _, e := range exits {
			lr.Exits = append(lr.Exits, e.St.Clone())
		}
		for _, o := range outs {
			lr.Outs = append(lr.Outs, Outcome{o.Kind, o.St.Clone(), o.Ret})
		}
		if x.OnLoop != nil {
			x.OnLoop(lr)
		}
	}
	return exits, outs
}

// splitNil takes those ends of an iteration apart in which slices have become
// nil and after which the loop is left. It returns the others and the paths at
// the start of the last iteration.
func (x *Exec) splitNil(fr *Frame, head *State, vals []*Term, backs []*Path, l *Loop) (rest, late []*Path) {
	if !x.SplitNil {
		return backs, nil
	}
	nils := func(v, w *Term) bool { return newNil(v, w) }
	for _, b := range backs {
		is := false
		for i, w := range x.phiVals(fr, b, l.header) {
			is = is || nils(vals[i], w)
		}
		if !is {
			for k, v := range head.cells {
				if w, ok := b.St.cells[k]; ok && nils(v, w) {
					is = true
					break
				}
			}
		}
		if !is {
			rest = append(rest, b)
			continue
		}
		q := b.fork()
		x.phis(fr, q)
		q.start = true
		x.rec++
		t := q.fork()
		t.start = true
		again, _, _ := x.run(fr, []*Path{t}, l)
		x.rec--
		if len(again) > 0 {
			rest = append(rest, b)
			continue
		}
		late = append(late, q)
	}
	return rest, late
}

// newNil reports whether some slice is nil in w but not in v.
func newNil(v, w *Term) bool {
	if v.Op == OSlice && w.Op == OSlice {
		return w.A[4].True() && !v.A[4].True()
	}
	if v.Op == w.Op && len(v.A) == len(w.A) && (v.Op == OStruct || v.Op == OTuple) {
		for i := range v.A {
			if newNil(v.A[i], w.A[i]) {
				return true
			}
		}
	}
	return false
}

func matchLoose(t, v *Term, hole map[*Term]bool, b map[*Term]*Term) {
	if hole[t] {
		if _, ok := b[t]; !ok {
			b[t] = v
		}
		return
	}
	if t.Op == v.Op && len(t.A) == len(v.A) {
		switch t.Op {
		case OStruct, OTuple, OPtr, OIface, OApp, OSlice, OClo:
			for i := range t.A {
				matchLoose(t.A[i], v.A[i], hole, b)
			}
		}
	}
}

// candidates proposes loop invariants.
func (x *Exec) candidates(fr *Frame, p *Path, l *Loop, syms []*Term, init map[*Term]*Term, backs []*Path, next []map[*Term]*Term, mark uint64, dropped map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.IsConst() || seen[t] || dropped[t] {
			return
		}
		if p.St.Facts.Holds(Subst(t, init)) <= 0 {
			return
		}
		seen[t] = true
		out = append(out, t)
	}
	var ints []*Term
	isL := map[*Term]bool{}
	for _, s := range syms {
		isL[s] = true
		if s.W > 0 {
			ints = append(ints, s)
		} else {
			v0 := init[s]
			if v0.Op == OApp && len(v0.A) > 0 || v0.Op == OSym {
				// what is known of the value at entry
				n := 0
				p.St.Facts.Each(func(f *Term) bool {
					if n < 24 && hasAny(f, map[*Term]bool{v0: true}) {
						n++
						add(replaceTerms(f, map[*Term]*Term{v0: s}))
					}
					return true
				})
			}
			add(Eq(s, Nil))
			add(Not(Eq(s, Nil)))
			if isBoolTerm(v0) {
				add(s)
				add(Not(s))
			}
		}
	}
	step := func(s *Term) *Term { // common increment
		var d *Term
		for _, n := range next {
			v, ok := n[s]
			if !ok {
				return nil
			}
			e := Sub(v, s)
			if d != nil && d != e {
				return nil
			}
			d = e
		}
		return d
	}
	for _, s := range ints {
		v0 := init[s]
		add(Le(true, v0, s))
		add(Le(false, v0, s))
		add(Le(true, s, v0))
		add(Le(false, s, v0))
		if v0.Op != OInt || int64(v0.SVal()) > 0 {
			add(Le(true, Int(s.W, 0), s))
		}
		d := step(s)
		if d != nil && d.Op != OInt && !hasSymAfter(d, mark) {
			// s = v0 + k*d for another counter or a ghost
			for _, t := range ints {
				if t != s && t.W == s.W {
					if e := step(t); e != nil && e == Int(t.W, 1) {
						add(Eq(Sub(s, v0), Mul(d, Sub(t, init[t]))))
					}
				}
			}
			if v0 == Int(s.W, 0) || x.divides(p.St.Facts, v0, d) {
				add(Eq(RemU(s, d), Int(s.W, 0)))
			}
		}
		if d != nil && d.Op == OInt && d.SVal() != 1 && d.SVal() != -1 && d.K != 0 {
			if n, ok := pow2(d.K); ok {
				_ = n
				add(Eq(RemU(Sub(s, v0), d), Int(s.W, 0)))
			}
		}
	}
	if len(ints) <= 8 {
		for i, s := range ints {
			for j, t := range ints {
				if i >= j || s.W != t.W {
					continue
				}
				add(Eq(Sub(s, init[s]), Sub(t, init[t])))
				add(Eq(Sub(s, init[s]), Sub(init[t], t)))
				add(Le(true, s, t))
				add(Le(true, t, s))
				ds, dt := step(s), step(t)
				if ds != nil && dt != nil && ds.Op == OInt && dt.Op == OInt && dt.K != 0 && ds.K != 0 {
					a, b := ds.SVal(), dt.SVal()
					if a != b && a != -b {
						if a%b == 0 {
							add(Eq(Sub(s, init[s]), Lin(s.W, 0, []uint64{uint64(a / b)}, []*Term{Sub(t, init[t])})))
						} else if b%a == 0 {
							add(Eq(Sub(t, init[t]), Lin(s.W, 0, []uint64{uint64(b / a)}, []*Term{Sub(s, init[s])})))
						}
					}
				}
			}
		}
	}
	// comparisons made in the loop
	n0 := p.St.Facts
	lits := map[*Term]bool{}
	for _, b := range backs {
		b.St.Facts.Each(func(f *Term) bool {
			if n0.Has(f) {
				return true
			}
			lits[f] = true
			return true
		})
	}
	var ls []*Term
	for f := range lits {
		ls = append(ls, f)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].ID < ls[j].ID })
	for _, f := range ls {
		ok, any := true, false
		for _, s := range symsAfter(f, mark) {
			if isL[s] {
				any = true
			} else {
				ok = false
			}
		}
		if !ok || !any {
			continue
		}
		add(f)
		c, pos := numeric(f)
		if c == nil {
			continue
		}
		if c.Op == OEq {
			// s != N with s increasing: s <= N
			if !pos {
				for _, sg := range []bool{true, false} {
					add(Le(sg, c.A[0], c.A[1]))
					add(Le(sg, c.A[1], c.A[0]))
				}
			}
			continue
		}
		sg := c.Op == OLtS
		a, b := c.A[0], c.A[1]
		if pos {
			add(Le(sg, a, b))
			add(Le(true, a, b))
		} else {
			add(Le(true, b, a))
		}
		// shifted by the steps
		sh := map[*Term]*Term{}
		okS := true
		for _, s := range symsAfter(f, mark) {
			d := step(s)
			if d == nil || hasSymAfter(d, mark) {
				okS = false
				break
			}
			sh[s] = Sub(s, d)
		}
		if okS {
			add(Subst(f, sh))
			if pos {
				add(Le(true, Subst(a, sh), b))
			}
		}
	}
	if x.Candidates != nil {
		for _, c := range x.Candidates(fr, p.St, syms, init) {
			add(c)
		}
	}
	return out
}

func (x *Exec) divides(f *Facts, v, d *Term) bool {
	return f.Holds(Eq(RemU(v, d), Int(v.W, 0))) > 0
}

var _ = fmt.Sprint

// foldLin rewrites the sums in a literal so that they use h for the sum t.
func foldLin(f, t, h *Term) *Term {
	if f.W == t.W && f.W > 0 && f.Op != OInt {
		x, ct := t.A[0], t.Co[0]
		var cf uint64
		switch {
		case f == x:
			cf = 1
		case f.Op == OLin:
			for i, a := range f.A {
				if a == x {
					cf = f.Co[i]
				}
			}
		}
		if cf != 0 {
			k := uint64(0)
			switch {
			case cf == ct:
				k = 1
			case cf == (-ct)&mask(t.W):
				k = mask(t.W)
			case ct != 0 && cf%ct == 0:
				k = cf / ct
			}
			if k != 0 {
				return Add(f, Mul(Int(t.W, k), Sub(h, t)))
			}
			return f
		}
	}
	if len(f.A) == 0 || f.Op == OLin {
		return f
	}
	na := make([]*Term, len(f.A))
	ch := false
	for i, a := range f.A {
		na[i] = foldLin(a, t, h)
		ch = ch || na[i] != a
	}
	if !ch {
		return f
	}
	return Rebuild(f, na)
}
