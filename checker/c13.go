package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C13"] = checkC13 }

// A rangeView is the analysis of one kind of range over the database model:
// what making it gives, and what moving it on from any item gives.
type rangeView struct {
	c     *Check
	full  bool
	typ   types.Type // the range
	has   *ssa.Function
	next  *ssa.Function
	meth  map[string]*ssa.Function // Owner, Key, Generation, Item
	first []*rangeEnd
	steps []*rangeEnd
	cuts  []*rangeEnd
	obs   []*ai.Ob
	outs  []ai.Outcome
	d     *DB
	x     *ai.Exec
	owner *ai.Term
	lo    []*ai.Term // first object
	hi    []*ai.Term // last object
	gen   *ai.Term
}

// rangeEnd is a state in which a range has been moved to another item or to its
// end.
type rangeEnd struct {
	st    *ai.State
	from  Pos // where the search began
	has   bool
	r     *ai.Term // address of the range
	key   []*ai.Term
	item  *ai.Term
	data  *ai.Term // what was returned; nil if nothing was
	where string
	pos   string
	stay  bool // may still be at the item the step began with
	left  bool // at a loop which may pass it over
	loop  *ai.LoopRun
	back  bool // after an iteration
}

var rangeTmp = ai.Obj("range under test")

// quietly runs a function without recording obligations.
func (v *rangeView) quietly(f *ssa.Function, args []*ai.Term, st *ai.State) []ai.Outcome {
	ob, lp := v.x.OnOb, v.x.OnLoop
	v.x.OnOb, v.x.OnLoop = nil, nil
	defer func() { v.x.OnOb, v.x.OnLoop = ob, lp }()
	var r []ai.Outcome
	run := func(cl *ai.Call) []ai.Outcome { return v.x.Run(f, args, cl.St) }
	if v.x.Anchor != nil && f.Signature.Recv() != nil && isPlainSlice(f.Signature.Recv().Type()) {
		if m := v.x.Anchor(f); m != nil {
			run = m
		}
	}
	for _, o := range run(&ai.Call{X: v.x, St: st.Clone(), Args: args, Fn: f}) {
		if o.Kind == "return" && !infeasible(o.St) {
			r = append(r, o)
		}
	}
	return r
}

// recv is the address of the part of a range that declares a method.
func (v *rangeView) recv(f *ssa.Function, r *ai.Term) *ai.Term {
	t := deref1(f.Params[0].Type())
	if types.Identical(t, v.typ) {
		return r
	}
	if s, ok := v.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), t) {
				return ai.FieldAddr(r, i)
			}
		}
	}
	return r
}

// ends describes a state after a step: there may be an item or not.
func (v *rangeView) ends(e rangeEnd) []*rangeEnd {
	var r []*rangeEnd
	for _, h := range v.quietly(v.has, []*ai.Term{v.recv(v.has, e.r)}, e.st) {
		if !h.Ret.IsConst() {
			r = append(r, nil)
			continue
		}
		q := e
		q.st, q.has = h.St, h.Ret.True()
		if q.has {
			if !v.at(&q) {
				r = append(r, nil)
				continue
			}
		}
		r = append(r, &q)
	}
	return r
}

// at reads where a range is.
func (v *rangeView) at(e *rangeEnd) bool {
	get := func(n string) *ai.Term {
		f := v.meth[n]
		os := v.quietly(f, []*ai.Term{v.recv(f, e.r)}, e.st)
		if len(os) != 1 {
			return nil
		}
		return os[0].Ret
	}
	o, k, g, it := get("Owner"), get("Key"), get("Generation"), get("Item")
	if o == nil || k == nil || g == nil || it == nil {
		return false
	}
	obj := objectOf(o, k)
	if obj == nil {
		return false
	}
	e.key, e.item = version(obj, g), it
	return true
}

// rangeView analyses a kind of range.
func (c *Check) rangeView(full, anyOwner bool) *rangeView {
	name := "Range"
	if full {
		name = "FullRange"
	}
	v := &rangeView{c: c, full: full, typ: c.namedType(indexPkg, name), meth: map[string]*ssa.Function{}}
	mk := c.Need(indexPkg + ":Index." + name)
	v.has, v.next = c.Need(indexPkg+":"+name+".HasNext"), c.Need(indexPkg+":"+name+".Next")
	for _, n := range []string{"Owner", "Key", "Generation", "Item"} {
		v.meth[n] = c.Need(indexPkg + ":Range." + n)
		if v.meth[n] == nil {
			return nil
		}
	}
	if mk == nil || v.has == nil || v.next == nil || v.typ == nil {
		return nil
	}
	var st0 *ai.State
	r := c.dbRun(mk, func(r *dbRun, st *ai.State) {
		v.gen = c.indexGeneration(st, r.args[0])
		if !full && !anyOwner {
			r.x.Assume(st, ai.Lt(false, r.args[1], genMax))
		}
		st0 = st.Clone()
	})
	if r == nil || v.gen == nil {
		return nil
	}
	v.d, v.x = r.d, r.x
	v.obs = r.obs
	v.outs = append(v.outs, r.outs...)
	start := dbStart
	if full {
		v.hi = r.d.sentinel
	} else {
		v.owner = r.args[1]
		v.lo, v.hi = objectOf(r.args[1], r.args[2]), objectOf(r.args[1], r.args[3])
		if v.lo == nil || v.hi == nil {
			c.Fail(fnShort(mk), "unexpected signature")
			return nil
		}
		start = before(version(v.lo, genMin))
	}
	type shape struct {
		val *ai.Term
		st  *ai.State
	}
	var shapes []shape
	seen := map[*ai.Term]bool{}
	bad := false
	// shapeOf is the range with its item replaced by any item
	any := ai.Sym("anykey", 0, types.NewSlice(types.Typ[types.Uint8]))
	anyKey := ai.SliceV(any, ai.I64(0), ai.I64(dbKeyLen), ai.I64(dbKeyLen), ai.Bool(false))
	record := func(e *rangeEnd) {
		if e == nil {
			bad = true
			return
		}
		if !e.has {
			return
		}
		k := storedKey(e.item)
		if k == nil {
			return // reported elsewhere
		}
		val := ai.Subst(e.st.Load(e.r, v.typ), map[*ai.Term]*ai.Term{k.A[0]: any})
		id := []*ai.Term{val}
		val.Walk(func(t *ai.Term) bool {
			if t.Op == ai.OSlice && t.A[0] != any {
				id = append(id, comps(e.st, t)...)
			}
			return true
		})
		e.st.Ghosts("pos", func(base, p *ai.Term) {
			if p == k {
				id = append(id, base)
			}
		})
		key := ai.Struct(id...)
		if seen[key] {
			return
		}
		seen[key] = true
		q := e.st.Clone()
		q.Facts = st0.Facts
		for i := 0; i < dbMax; i++ {
			for _, n := range []string{"gap", "key"} {
				q.SetGhost(dbToken, fmt.Sprint(n, i), nil)
			}
		}
		dbAdd(q, "key", anyKey)
		e.st.Ghosts("pos", func(base, p *ai.Term) {
			if p == k {
				q.SetGhost(base, "pos", anyKey)
			} else {
				q.SetGhost(base, "pos", nil)
			}
		})
		q.Store(rangeTmp, val, v.typ)
		v.d.value(q, anyKey, e.item.T)
		shapes = append(shapes, shape{val, q})
	}
	v.cut(r.loops, start, false, fnShort(mk))
	for _, o := range r.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		if o.Ret.Op != ai.OTuple || len(o.Ret.A) != 2 {
			c.Fail(fnShort(mk), "unexpected results")
			return nil
		}
		st := o.St
		st.Store(rangeTmp, o.Ret.A[0], v.typ)
		from, stay := v.began(o.St, r.loops, start)
		for _, e := range v.ends(rangeEnd{st: st, from: from, r: rangeTmp, data: o.Ret.A[1], where: fnShort(mk), pos: c.pos(mk.Pos()), stay: stay != nil, loop: stay}) {
			record(e)
			if e != nil {
				v.first = append(v.first, e)
			}
		}
	}
	for i := 0; i < len(shapes) && !bad; i++ {
		if i > 12 {
			c.Fail(fnShort(v.next), "a range takes too many forms")
			return nil
		}
		s := shapes[i]
		st := s.st
		if v.owner != nil {
			v.x.Assume(st, ai.Eq(comps(st, anyKey)[0], v.owner))
		}
		cur := comps(st, anyKey)
		from := after(version(cur, genMax))
		if full {
			from = after(cur)
		}
		var loops []*ai.LoopRun
		v.x.OnLoop = func(l *ai.LoopRun) { loops = append(loops, l) }
		v.x.OnOb = func(o *ai.Ob) { v.obs = append(v.obs, o) }
		outs := v.x.Run(v.next, []*ai.Term{rangeTmp}, st)
		v.outs = append(v.outs, outs...)
		c.Counts["paths"] += len(outs)
		c.Errs(v.x, fnShort(v.next))
		v.cut(loops, from, true, fnShort(v.next))
		for _, o := range outs {
			if o.Kind != "return" || infeasible(o.St) {
				continue
			}
			fr, stay := v.began(o.St, loops, from)
			for _, e := range v.ends(rangeEnd{st: o.St, from: fr, r: rangeTmp, data: o.Ret, where: fnShort(v.next), pos: c.pos(v.next.Pos()), stay: stay != nil, loop: stay}) {
				record(e)
				if e != nil {
					v.steps = append(v.steps, e)
				}
			}
		}
	}
	c.saw(v.next)
	c.saw(v.has)
	if bad {
		c.Fail(fnShort(v.next), "whether a range has another item, or which, cannot be followed")
		return nil
	}
	c.Counts["range forms"] += len(shapes)
	return v
}

// ranges finds the ranges in the memory of a loop that moves one.
func (v *rangeView) moved(l *ai.LoopRun) (r *ai.Term, head *rangeEnd) {
	ps := l.Head.Holding(v.typ)
	for _, p := range ps {
		if p == rangeTmp {
			ps = []*ai.Term{p}
		}
	}
	for _, p := range ps {
		a, b := l.Entry.Load(p, v.typ), l.Head.Load(p, v.typ)
		if a == b && len(l.Backs)+len(l.More) > 0 {
			continue
		}
		e := &rangeEnd{st: l.Head.Clone(), r: p}
		if v.at(e) && storedKey(e.item) != nil {
			return p, e
		}
	}
	return nil, nil
}

// began is the position from which the last search on a path began.
func (v *rangeView) began(st *ai.State, loops []*ai.LoopRun, start Pos) (Pos, *ai.LoopRun) {
	for e := st.Trace; e != nil; e = e.Prev {
		if e.Kind != "loop" {
			continue
		}
		for _, l := range loops {
			if l.Ev != e {
				continue
			}
			if _, h := v.moved(l); h != nil {
				return after(version(h.key, genMax)), l
			}
		}
	}
	return start, nil
}

// cut records the steps that a loop makes: to reach it, and in each iteration.
func (v *rangeView) cut(loops []*ai.LoopRun, start Pos, mid bool, where string) {
	for _, l := range loops {
		r, h := v.moved(l)
		if h == nil {
			continue
		}
		entries := []*ai.State{l.Entry}
		for _, p := range l.More {
			entries = append(entries, p.St)
		}
		for _, st := range entries {
			from, _ := v.began(st, loops, start)
			e := &rangeEnd{st: st.Clone(), from: from, has: true, r: r, where: where, pos: v.c.loopPos(l), left: true, stay: mid, loop: l}
			if hs := v.quietly(v.has, []*ai.Term{v.recv(v.has, r)}, e.st.Clone()); len(hs) == 1 && hs[0].Ret.False() {
				continue // it is over
			}
			if v.at(e) {
				v.cuts = append(v.cuts, e)
			} else {
				v.c.Fail(where, "the item at the start of a loop cannot be followed")
			}
		}
		for _, b := range l.Backs {
			if infeasible(b.Path.St) {
				continue
			}
			e := &rangeEnd{st: b.Path.St.Clone(), from: after(version(h.key, genMax)), has: true, r: r, where: where, pos: v.c.loopPos(l), left: true, loop: l, back: true}
			if v.at(e) {
				v.cuts = append(v.cuts, e)
			} else {
				v.c.Fail(where, "the item at the end of an iteration cannot be followed")
			}
		}
	}
}

// step checks one step of a range.
func (v *rangeView) step(e *rangeEnd) {
	c, st := v.c, e.st
	nf := c.failures()
	defer func() {
		if c.failures() > nf && os.Getenv("DBGR") != "" {
			fmt.Println("STEP", e.from, e.key, e.left, e.stay)
			for _, g := range dbGaps(st) {
				fmt.Println("   gap", g.a, g.b)
			}
			dumpState(st)
		}
	}()
	if !e.has {
		end := after(version(v.hi, genMax))
		if v.full {
			end = before(v.hi)
		}
		c.Ob(v.nothing(st, e.from, end, 2), "complete", e.where, e.pos, "the range ends although there may be another item in it")
		return
	}
	k := storedKey(e.item)
	if !c.Ob(k != nil, "together", e.where, e.pos, "the value reported is not one that is stored in the database") {
		return
	}
	c.Ob(v.d.common(st, comps(st, k), e.key) == 5, "together", e.where, e.pos, "the key reported is not the one that the value is stored with")
	if !e.left {
		if os := v.quietly(v.c.Need(btrfsPkg+":Item.Data"), []*ai.Term{e.item}, st); e.data != nil {
			ok := len(os) > 0
			for _, o := range os {
				ok = ok && sameSlice(o.St, o.Ret, e.data)
			}
			c.Ob(ok, "together", e.where, e.pos, "what is returned is not the data of the item at the position of the range")
		}
	}
	if v.full {
		c.Ob(v.d.noKeys(st, e.from, before(e.key)), "complete", e.where, e.pos, "an item may be left out")
		c.Ob(v.d.le(st, e.from, before(e.key)), "once", e.where, e.pos, "the range may not move on")
		c.Ob(v.d.lexLE(st, e.key, v.hi, true), "bounds", e.where, e.pos, "the header record may be taken for an item")
		return
	}
	if e.stay && v.d.lexLE(st, e.key[:4], e.from.k[:4], false) && v.d.lexLE(st, e.from.k[:4], e.key[:4], false) {
		return
	}
	c.Ob(v.d.le(st, e.from, before(version(e.key, genMin))), "once", e.where, e.pos, "the range may not move on to another object")
	c.Ob(v.nothing(st, e.from, before(version(e.key, genMin)), 2), "complete", e.where, e.pos, "an object of the range may be left out")
	if !e.left {
		c.Ob(v.d.lexLE(st, e.key[:4], v.hi, false), "bounds", e.where, e.pos, "an item after the last key of the range may be yielded")
		c.Ob(v.d.common(st, e.key[:1], v.hi[:1]) == 1, "bounds", e.where, e.pos, "an item of another owner may be yielded")
	}
	for _, s := range v.d.byGeneration(st, e.key, v.gen) {
		c.Ob(v.d.chosen(s, e.key, v.gen), "version", e.where, e.pos, "the version yielded may not be the one that a lookup returns")
	}
}

// nothing reports whether it is known that only damaged items, if any, are
// stored between two positions.
func (v *rangeView) nothing(st *ai.State, a, b Pos, depth int) bool {
	if v.d.noKeys(st, a, b) {
		return true
	}
	if depth == 0 || v.full {
		return false
	}
next:
	for i := 0; i < dbMax; i++ {
		k := st.Ghost(dbToken, fmt.Sprint("key", i))
		if k == nil {
			break
		}
		cs := comps(st, k)
		if v.d.le(st, b, before(cs)) || !v.d.noKeys(st, a, before(version(cs, genMin))) {
			continue
		}
		q := st.Clone()
		if v.damaged(q, v.d.value(q, k, v.c.namedType(btrfsPkg, "Item")), cs) != "" {
			continue
		}
		for _, s := range v.d.byGeneration(st, cs, v.gen) {
			if !v.d.chosen(s, cs, v.gen) || !v.nothing(s, after(version(cs, genMax)), b, depth-1) {
				continue next
			}
		}
		return true
	}
	return false
}

// sameSlice reports whether two slices are known to be the same bytes.
func sameSlice(st *ai.State, a, b *ai.Term) bool {
	if a.Op != ai.OSlice || b.Op != ai.OSlice {
		return false
	}
	if a.A[4].True() || b.A[4].True() {
		return a.A[4] == b.A[4]
	}
	return a.A[0] == b.A[0] && same(st, a.A[1], b.A[1]) && same(st, a.A[2], b.A[2])
}

func checkC13(c *Check) {
	c.Rules = map[string]string{
		"complete": "between one position of a range and the next, and after the last one, no other object is stored",
		"once":     "every step moves to a later object, so no object is visited twice and iteration ends",
		"bounds":   "what is yielded has the owner of the range and a key between its bounds",
		"version":  "of each object the version is yielded that a lookup returns",
		"together": "key, item and data reported for a position are those of one stored record",
		"damaged":  "an item is passed over only if it is too short for its kind",
		"wrappers": "the ranges for one kind of item, and the subvolumes, have the bounds of that kind",
	}
	for _, full := range []bool{false, true} {
		v := c.rangeView(full, false)
		if v == nil {
			return
		}
		es := append(append(append([]*rangeEnd{}, v.cuts...), v.first...), v.steps...)
		loops := map[*ai.LoopRun]bool{}
		for _, e := range es {
			v.step(e)
			if e.loop != nil && !loops[e.loop] {
				loops[e.loop] = true
				v.passedOver(e.loop, es)
			}
		}
		n := [2]int{}
		for _, e := range v.steps {
			if e.has {
				n[0]++
			} else {
				n[1]++
			}
		}
		c.Ob(n[0] > 0 && n[1] > 0, "complete", v.typ.String(), "", "a range never has another item, or never ends")
	}
	c.rangeWrappers()
}

// rangeWrappers checks the bounds of the ranges for particular kinds of items.
// They are numbers of the disk format: tree, item type, first and last id; a
// negative number -n is the n-th parameter of the method.
func (c *Check) rangeWrappers() {
	lastFree := -256
	for _, w := range []struct {
		name  string
		owner int
		typ   int
		first int
		last  int
	}{
		{"RangeAll", -1, -2, -3, -3},
		{"Subvolumes", 1, 132, 256, lastFree},
		{"DirItems", -1, 84, -2, -2},
		{"XAttrItems", -1, 24, -2, -2},
		{"FileExtentItems", -1, 108, -2, -2},
		{"Chunks", 3, 228, 256, 256},
		{"DevItems", 3, 216, 1, 1},
	} {
		f := c.Need(indexPkg + ":Index." + w.name)
		if f == nil {
			continue
		}
		var args []*ai.Term
		num := func(n, width int) *ai.Term {
			if n < 0 && n > -100 {
				return args[-n]
			}
			return ai.Int(width, uint64(int64(n)))
		}
		x, as, outs := c.run(f, func(x *ai.Exec, st *ai.State, as []*ai.Term) {
			x.Anchor = both(anchors(c.readAPI()), c.accessors())
			x.Assume(st, ai.Not(ai.Eq(as[0], ai.Nil)))
		}, nil)
		args = as
		n := 0
		for _, o := range outs {
			if o.Kind != "return" || infeasible(o.St) {
				continue
			}
			n++
			var r *Rng
			if o.Ret.Op == ai.OTuple && len(o.Ret.A) == 2 {
				r = rngOf(o.Ret.A[0])
			}
			if !c.Ob(r != nil && r.pos == ai.I64(0) && len(r.base.A) == 8, "wrappers", fnShort(f), c.pos(f.Pos()), "what is returned is not a new range") {
				continue
			}
			want := []*ai.Term{args[0], num(w.owner, 64), num(w.typ, 8), num(w.first, 64), ai.Int(64, 0), num(w.typ, 8), num(w.last, 64), genMax}
			ok := true
			for i, t := range want {
				ok = ok && same(o.St, r.base.A[i], t)
			}
			c.Ob(ok, "wrappers", fnShort(f), c.pos(f.Pos()), "the range goes from %v to %v of tree %v", r.base.A[2:5], r.base.A[5:8], r.base.A[1])
			c.Ob(sameSlice(o.St, o.Ret.A[1], c.dataOf(x, o.St, r.item(x, c.namedType(btrfsPkg, "Item")))), "wrappers", fnShort(f), c.pos(f.Pos()), "the first item is not returned with the range")
		}
		c.Ob(n > 0, "wrappers", fnShort(f), c.pos(f.Pos()), "the range is never made")
	}
}

// passedOver checks that a loop passes over an item only if it is damaged: either
// it is whenever the loop is reached, or whenever it is left for another one.
func (v *rangeView) passedOver(l *ai.LoopRun, es []*rangeEnd) {
	var first *rangeEnd
	var msg string
	n, bad := 0, 0
	for _, e := range es {
		if e.left && e.loop == l && !e.stay {
			n++
			if m := v.damaged(e.st, e.item, e.key); m != "" {
				if first == nil {
					first, msg = e, m
				}
				bad++
			}
		}
	}
	if bad > 0 {
		_, h := v.moved(l)
		gone := h != nil
		for _, e := range es {
			if e.loop != l || e.left && !e.back {
				continue
			}
			st := e.st
			if !e.left && e.has && v.d.common(st, e.key[:4], h.key[:4]) == 4 {
				continue
			}
			if !e.has && v.d.lexLE(st, v.hi, h.key[:4], true) {
				continue
			}
			if gone && v.damaged(st, h.item, h.key) != "" {
				gone = false
			}
		}
		if gone {
			bad = 0
		}
	}
	if n > 0 {
		e := first
		if e == nil {
			e = es[0]
		}
		v.c.Ob(bad == 0, "damaged", e.where, v.c.loopPos(l), "%s", msg)
	}
}

// damaged checks that an item is too short for its kind. It returns what else
// it may be.
func (v *rangeView) damaged(st0 *ai.State, item *ai.Term, key []*ai.Term) string {
	c := v.c
	dataOf := c.Need(btrfsPkg + ":Item.Data")
	typeOf := c.P.methodsOf(btrfsPkg, "FileExtentItem")["Type"]
	if dataOf == nil || typeOf == nil {
		return "its data cannot be found"
	}
	for _, st := range expand(v.x, st0) {
		for _, o := range v.quietly(dataOf, []*ai.Term{item}, st) {
			others := []*ai.Term{}
			for t, n := range wellFormedLen {
				is := ai.Eq(key[1], ai.Int(8, t))
				others = append(others, ai.Not(is))
				s := o.St.Clone()
				if !assume(v.x, s, is) {
					continue
				}
				big := n
				if t == 108 {
					big = 53
				}
				if assume(v.x, s.Clone(), ai.Le(true, ai.I64(big), o.Ret.A[2])) {
					return fmt.Sprintf("an item of kind %d that is long enough may be passed over", t)
				}
				if t == 108 && assume(v.x, s, ai.Le(true, ai.I64(n), o.Ret.A[2])) {
					for _, q := range v.quietly(typeOf, []*ai.Term{o.Ret}, s) {
						if assume(v.x, q.St, ai.Eq(q.Ret, ai.Int(8, 0))) {
							return "an inline extent may be passed over"
						}
					}
				}
			}
			if assume(v.x, o.St.Clone(), others...) {
				return "an item of a kind without a minimal length may be passed over"
			}
		}
	}
	return ""
}
