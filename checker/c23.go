package main

import (
	"fmt"

	"verif/checker/ai"
)

func init() {
	checks["C23"] = checkC23
	checks["C24"] = checkC24
	checks["C04"] = checkC04
}

// where the format keeps copies of the super block
var superOffsets = []int64{64 << 10, 64 << 20, 256 << 30, 1 << 50}

// sortDirection decides how a sort event orders elements by a key: 1
// ascending, -1 descending, 0 neither.
func (c *Check) sortDirection(x *ai.Exec, st *ai.State, ev *ai.Event, key func(s *ai.State, i *ai.Term) *ai.Term) int {
	sl := ai.Sorted(ev)
	if sl.Op != ai.OSlice {
		return 0
	}
	dir := 0
	for k, want := range []bool{true, false} {
		s := st.Clone()
		i, j := ai.Sym("i", 64, intType), ai.Sym("j", 64, intType)
		for _, t := range []*ai.Term{i, j} {
			x.Assume(s, ai.Le(true, ai.I64(0), t))
			x.Assume(s, ai.Lt(true, t, sl.A[2]))
		}
		a, b := key(s, i), key(s, j)
		if a == nil || b == nil {
			return 0
		}
		if k == 1 {
			a, b = b, a
		}
		if !assume(x, s, ai.Lt(false, a, b)) {
			return 0
		}
		outs, rev := x.LessAt(ev, s, i, j)
		dbgf("sort %v: %v < %v: %v", ev.Args, a, b, outs)
		if len(outs) == 0 {
			return 0
		}
		got := 0
		for _, o := range outs {
			if o.Kind != "return" || infeasible(o.St) {
				continue
			}
			d := 0
			if holds(o.St, o.Ret) {
				d = 1
			} else if notHolds(o.St, o.Ret) {
				d = -1
			}
			if d == 0 || got != 0 && d != got {
				return 0
			}
			got = d
		}
		if rev {
			got = -got
		}
		if !want {
			got = -got
		}
		if k == 1 && got != dir {
			return 0
		}
		dir = got
	}
	return dir
}

// counter is a loop variable that steps by a constant.
type counter struct {
	sym        *ai.Term
	from, step *ai.Term
}

// counters are the variables of a loop that step by the same amount in every
// iteration.
func counters(l *ai.LoopRun) []counter {
	var r []counter
	for _, s := range l.Syms {
		if s.W != 64 || l.Init[s] == nil {
			continue
		}
		var step *ai.Term
		ok := len(l.Backs) > 0
		for _, b := range l.Backs {
			n := b.Next[s]
			if n == nil {
				ok = false
				break
			}
			d := ai.Sub(n, s)
			if step != nil && d != step {
				ok = false
				break
			}
			step = d
		}
		if ok && step != nil && step != ai.I64(0) {
			r = append(r, counter{s, l.Init[s], step})
		}
	}
	return r
}

func isMapUpdate(e *ai.Event) bool { return e.Kind == "mapupdate" }

func checkC23(c *Check) {
	c.Rules = map[string]string{
		"whole":     "every sampled block lies completely on the device",
		"ascending": "samples are sorted in ascending order",
		"distinct":  "no block is sampled twice",
		"super":     "the neighbourhood of every super block copy on the device is sampled",
		"ends":      "sampling ends",
		"used":      "identify reads exactly the sampled blocks of its own device, in their order, with its block size",
		"blocksize": "identify accepts exactly the block sizes the analysis covers",
	}
	c.blockSizeRule2("blocksize")
	f := c.Need(identifyPkg + ":MakeSampleOffsets")
	if f == nil {
		return
	}
	if len(f.Params) != 3 {
		c.Fail(fnShort(f), "unexpected parameters")
		return
	}
	where, pos := fnShort(f), c.pos(f.Pos())
	for _, bs := range blockSizes {
		var loops []*ai.LoopRun
		K := ai.I64(bs)
		var size *ai.Term
		var stores []*ai.Event
		x, _, outs := c.run(f, func(x *ai.Exec, st *ai.State, args []*ai.Term) {
			x.OnLoop = func(l *ai.LoopRun) { loops = append(loops, l) }
			x.OnMem = func(e *ai.Event) {
				if e.Kind == "store" {
					if _, _, ok := ai.ElemOf(e.Args[0]); ok {
						stores = append(stores, e)
					}
				}
			}
			args[1] = K
			size = args[0]
			x.Assume(st, ai.Le(true, ai.I64(superOffsets[1]+100*bs), size))
		}, nil)
		n := 0
		for _, o := range outs {
			if o.Kind != "return" {
				continue
			}
			n++
			ret := o.Ret
			if ret.Op != ai.OSlice {
				c.Ob(false, "whole", where, pos, "the samples are not known")
				continue
			}
			fits := func(s *ai.State, e *ai.Term) bool {
				return holds(s, ai.Lt(false, e, size)) && holds(s, ai.Le(false, K, ai.Sub(size, e)))
			}
			c.distinct(o.St, ret, loops, stores, where, pos, fits)
			c.ordered(x, o.St, ret, where, pos)
			// super blocks
			for k, so := range superOffsets {
				if notHolds(o.St, ai.Le(false, ai.I64(so+bs), size)) {
					continue
				}
				s := o.St.Clone()
				if !assume(x, s, ai.Le(false, ai.I64(so+bs), size)) {
					continue
				}
				c.Ob(c.neighbourhood(x, s, loops, so, bs, size), "super", fmt.Sprintf("%s copy %d", where, k), pos,
					"the 100 blocks of %d bytes from the super block at %d on are not all sampled", bs, so)
			}
		}
		c.Ob(n > 0, "ends", where, pos, "never returns")
		for _, l := range loops {
			c.Ob(c.loopEnds(l), "ends", loopWhere(l)+" "+l.Header.Comment, c.loopPos(l), "the loop is not known to end for %d byte blocks", bs)
		}
		c.identifyReads(bs)
	}
	c.Assume = append(c.Assume, "random draws do not miss a candidate forever (termination with probability 1)")
}

// blockSizeRule2 is the rule about accepted block sizes under another name.
func (c *Check) blockSizeRule2(rule string) {
	n := len(c.order)
	c.blockSizeRule()
	for _, k := range c.order[n:] {
		c.obs[k].Rule = rule
	}
}

// ordered checks that a returned slice was sorted last.
func (c *Check) ordered(x *ai.Exec, st *ai.State, ret *ai.Term, where, pos string) {
	var ev *ai.Event
	for e := st.Trace; e != nil; e = e.Prev {
		if e.Kind == "sort" && ai.Sorted(e).Op == ai.OSlice && ai.Sorted(e).A[0] == ret.A[0] {
			ev = e
			break
		}
	}
	if !c.Ob(ev != nil, "ascending", where, pos, "the samples are not sorted") {
		return
	}
	d := 0
	switch ev.Name {
	case "slices.Sort":
		d = 1
	default:
		d = c.sortDirection(x, st, ev, func(s *ai.State, i *ai.Term) *ai.Term {
			sl := ai.Sorted(ev)
			return s.ReadElem(sl.A[0], ai.Add(sl.A[1], i), intTypeU)
		})
	}
	c.Ob(d == 1, "ascending", where, pos, "the samples are not sorted in ascending order")
	c.Ob(same(st, ai.Sorted(ev).A[2], ret.A[2]), "ascending", where+" all", pos, "not all samples are sorted")
}

// distinct checks that a slice was filled with the keys of a set, each once,
// and that only whole blocks are put into the set.
func (c *Check) distinct(st *ai.State, ret *ai.Term, loops []*ai.LoopRun, stores []*ai.Event, where, pos string, fits func(*ai.State, *ai.Term) bool) {
	ok, filled := true, 0
	var sets []*ai.Term
	for _, l := range loops {
		if !traceHas(st, l.Ev) {
			continue
		}
		for _, b := range l.Backs {
			var key *ai.Term
			apps := 0
			for _, e := range since(b.Path.St, l.Ev) {
				switch e.Kind {
				case "mapnext":
					key = e.Args[2]
					sets = append(sets, e.Args[0])
				case "append":
					apps++
					el := e.Args[1]
					if key == nil || el.Op != ai.OSlice || el.A[2] != ai.I64(1) {
						ok = false
						break
					}
					s := b.Path.St
					if e.St != nil {
						s = e.St
					}
					if !same(s, s.ReadElem(el.A[0], el.A[1], intTypeU), key) {
						ok = false
					}
				}
			}
			if apps > 1 {
				ok = false
			}
			filled += apps
		}
	}
	for e := st.Trace; e != nil; e = e.Prev {
		if e.Kind == "append" {
			ok = false
		}
	}
	for _, w := range stores {
		if r, _, is := ai.ElemOf(w.Args[0]); is && r == ret.A[0] {
			// written by index instead
			ok, filled = filledByIndex(st, ret, loops, stores), filled+1
			break
		}
	}
	c.Ob(ok && filled > 0, "distinct", where, pos, "the samples are not known to be distinct: they are not filled from the keys of a set, each once")
	// what is put into the set
	added := 0
	check := func(s *ai.State, es []*ai.Event) {
		for _, e := range es {
			if !isMapUpdate(e) {
				continue
			}
			if e.St != nil {
				s = e.St
			}
			for _, m := range sets {
				if notHolds(s, ai.Eq(m, e.Args[0])) {
					continue
				}
				added++
				dbgf("sample %v", e.Args[1])
				c.Ob(fits(s, e.Args[1]), "whole", where, c.pos(e.Instr.Pos()), "a sampled block at %v may not lie completely on the device", e.Args[1])
				break
			}
		}
	}
	for _, l := range loops {
		for _, b := range l.Backs {
			check(b.Path.St, since(b.Path.St, l.Ev))
		}
	}
	check(st, events(st))
	c.Ob(added > 0, "whole", where+" ever", pos, "nothing is sampled")
}

// filledByIndex checks that a slice was filled, element after element, with
// the keys of a map.
func filledByIndex(st *ai.State, ret *ai.Term, loops []*ai.LoopRun, stores []*ai.Event) bool {
	for _, l := range loops {
		if !traceHas(st, l.Ev) || len(l.Backs) == 0 {
			continue
		}
		for _, ct := range counters(l) {
			for _, k := range []int64{0, 1} {
				idx := ai.AddK(ct.sym, k)
				if ct.step != ai.I64(1) || ai.Add(ct.from, ai.I64(k)) != ai.I64(0) || !same(st, ret.A[2], idx) {
					continue
				}
				good := true
				for _, b := range l.Backs {
					var nx *ai.Event
					for _, e := range since(b.Path.St, l.Ev) {
						if e.Kind == "mapnext" && nx == nil {
							nx = e
						} else if e.Kind == "mapnext" || e.Kind == "append" {
							good = false
						}
					}
					good = good && nx != nil && same(b.Path.St, b.Path.St.ReadElem(ret.A[0], ai.Add(ret.A[1], idx), intTypeU), nx.Args[2])
				}
				// nothing else is written
				for _, w := range stores {
					r, i, _ := ai.ElemOf(w.Args[0])
					if r != ret.A[0] || !traceHas(w.St, l.Ev) && w.Prev != nil && !traceHas(st, w.Prev) {
						continue
					}
					good = good && traceHas(w.St, l.Ev) && same(w.St, i, ai.Add(ret.A[1], idx))
				}
				if good {
					return true
				}
			}
		}
	}
	return false
}

// neighbourhood checks that on a path the 100 blocks from a super block on
// were all added to the set of samples, as far as they lie on the device.
func (c *Check) neighbourhood(x *ai.Exec, st *ai.State, loops []*ai.LoopRun, so, bs int64, size *ai.Term) bool {
	for _, l := range loops {
		if !traceHas(st, l.Ev) {
			continue
		}
		for _, ct := range counters(l) {
			if !ct.from.IsConst() || !ct.step.IsConst() {
				continue
			}
			a, d := ct.from.SVal(), ct.step.SVal()
			// the loop goes on for at least 100 iterations
			if d > 0 && !holds(st, ai.Le(true, ai.I64(a+100*d), ct.sym)) || d < 0 && !holds(st, ai.Le(true, ct.sym, ai.I64(a+100*d))) {
				continue
			}
			// the address that belongs to the iteration
			at := ai.Add(ai.I64(so), ai.Mul(ai.I64(bs/abs(d)), ai.AddK(ct.sym, -a)))
			if d < 0 {
				at = ai.Sub(ai.I64(so), ai.Mul(ai.I64(bs/abs(d)), ai.AddK(ct.sym, -a)))
			}
			if bs%abs(d) != 0 {
				continue
			}
			good := true
			for _, b := range l.Backs {
				s := b.Path.St.Clone()
				lo, hi := a, a+99*d
				if lo > hi {
					lo, hi = hi, lo
				}
				if !assume(x, s, ai.Le(true, ai.I64(lo), ct.sym), ai.Le(true, ct.sym, ai.I64(hi)), ai.Le(false, ai.Add(at, ai.I64(bs)), size), ai.Le(true, ai.I64(0), size)) {
					continue
				}
				added := false
				for _, e := range since(b.Path.St, l.Ev) {
					if isMapUpdate(e) && same(s, e.Args[1], at) {
						added = true
					}
				}
				if !added {
					good = false
					break
				}
			}
			if good {
				return true
			}
		}
	}
	return false
}

func abs(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

// loopEnds looks for a reason why a loop ends.
func (c *Check) loopEnds(l *ai.LoopRun) bool {
	if len(l.Backs) == 0 {
		return true
	}
	// a range over a map that is not modified
	rng := true
	for _, b := range l.Backs {
		it := false
		for _, e := range since(b.Path.St, l.Ev) {
			if e.Kind == "mapnext" {
				it = true
			}
			if isMapUpdate(e) {
				rng = false
			}
		}
		if !it {
			rng = false
		}
	}
	if rng {
		return true
	}
	// a counter with a bound
	for _, ct := range counters(l) {
		if !ct.step.IsConst() {
			continue
		}
		d := ct.step.SVal()
		ok := true
		for _, b := range l.Backs {
			st := b.Path.St
			found := false
			st.Facts.Each(func(f *ai.Term) bool {
				lo, hi, _, isLt := ai.Less(f)
				if !isLt {
					return true
				}
				if d > 0 && termContains(lo, ct.sym) && !termContains(hi, ct.sym) && invariantIn(l, hi) ||
					d < 0 && termContains(hi, ct.sym) && !termContains(lo, ct.sym) && invariantIn(l, lo) {
					found = true
				}
				return !found
			})
			if !found {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	// a position that moves forward to a bound
	for _, s := range l.Syms {
		if s.W != 64 {
			continue
		}
		ok := true
		for _, b := range l.Backs {
			n, st := b.Next[s], b.Path.St
			if n == nil {
				ok = false
				break
			}
			found := false
			st.Facts.Each(func(f *ai.Term) bool {
				lo, hi, strict, isLt := ai.Less(f)
				if isLt && strict && lo == s && invariantIn(l, hi) {
					for _, signed := range []bool{false, true} {
						found = found || st.Facts.Holds(ai.Lt(signed, s, n)) > 0 || holds(st, ai.Lt(signed, s, n))
					}
				}
				return !found
			})
			ok = ok && found
		}
		if ok {
			return true
		}
	}
	// a set that grows by random draws from enough candidates
	ok := true
	for _, b := range l.Backs {
		st := b.Path.St
		grows := false
		for _, e := range since(st, l.Ev) {
			if !isMapUpdate(e) {
				continue
			}
			r := randIn(e.Args[1])
			if r == nil {
				continue
			}
			k := ai.Sub(ai.Subst(e.Args[1], map[*ai.Term]*ai.Term{r: ai.AddK(r, 1)}), e.Args[1])
			if !k.IsConst() || k.SVal() == 0 {
				continue
			}
			// candidates: r < N; the loop goes on while the set has
			// less than M <= N elements
			st.Facts.Each(func(f *ai.Term) bool {
				lo, hi, strict, isLt := ai.Less(f)
				if isLt && strict && lo.Op == ai.OApp && lo.S == "nat:maplen" {
					s := st.Clone()
					// r can be any value up to M-1: M <= N
					for _, n := range randBounds(st, r) {
						if holds(s, ai.Le(false, hi, n)) {
							grows = true
						}
					}
				}
				return !grows
			})
		}
		if !grows {
			ok = false
		}
	}
	return ok
}

// invariantIn reports whether a term does not change in a loop.
func invariantIn(l *ai.LoopRun, t *ai.Term) bool {
	for _, s := range l.Syms {
		if termContains(t, s) {
			return false
		}
	}
	return true
}

// randIn finds the random number in a term.
func randIn(t *ai.Term) *ai.Term {
	if t.Op == ai.OSym && len(t.S) >= 4 && t.S[:4] == "rand" {
		return t
	}
	for _, a := range t.A {
		if r := randIn(a); r != nil {
			return r
		}
	}
	return nil
}

// randBounds are the numbers that a random number was drawn below.
func randBounds(st *ai.State, r *ai.Term) []*ai.Term {
	var ns []*ai.Term
	st.Facts.Each(func(f *ai.Term) bool {
		lo, hi, strict, ok := ai.Less(f)
		if ok && strict && lo == r {
			ns = append(ns, hi)
		}
		return true
	})
	return ns
}

// identifyReads checks how identify uses the samples.
func (c *Check) identifyReads(bs int64) {
	r := c.identify(bs)
	if r == nil {
		return
	}
	ls := r.blockLoops()
	c.Ob(len(ls) > 0, "used", r.name, "", "no loop reads blocks")
	for _, l := range ls {
		where, pos := loopWhere(l), c.loopPos(l)
		var mk *ai.Event
		for e := l.Ev; e != nil; e = e.Prev {
			if evIs(e, sampleFn) {
				mk = e
				break
			}
		}
		if !c.Ob(mk != nil && mk.Res.Op == ai.OSlice, "used", where, pos, "blocks are read without choosing samples") {
			continue
		}
		size := deviceSize(l.Entry)
		c.Ob(size != nil && same(l.Entry, mk.Args[0], size) && same(l.Entry, mk.Args[1], ai.I64(bs)), "used", where+" device", pos,
			"samples are chosen for a device of size %v with blocks of %v bytes instead of %v and %d", mk.Args[0], mk.Args[1], size, bs)
		for _, b := range l.Backs {
			var rd *ai.Event
			n := 0
			for _, e := range since(b.Path.St, l.Ev) {
				if isRead(e) {
					rd = e
					n++
				}
			}
			if !c.Ob(n == 1, "used", where+" reads per iteration", pos, "an iteration makes %d reads", n) {
				continue
			}
			buf, off, _, _ := readParts(rd)
			c.Ob(buf.Op == ai.OSlice && same(b.Path.St, buf.A[2], ai.I64(bs)), "used", where+" size", pos, "reads %v bytes", buf)
			// off is element number k of the samples, k runs from 0 up
			good := false
			for _, ct := range counters(l) {
				for _, k := range []int64{0, 1} {
					idx := ai.AddK(ct.sym, k)
					if ct.step == ai.I64(1) && ai.Add(ct.from, ai.I64(k)) == ai.I64(0) &&
						same(b.Path.St, off, b.Path.St.ReadElem(mk.Res.A[0], ai.Add(mk.Res.A[1], idx), intTypeU)) {
						good = true
						// and it ends only after the last
						for _, o := range r.outs {
							if !traceHas(o.St, l.Ev) {
								continue
							}
							rest := since(o.St, l.Ev)
							inLoop := false
							for _, e := range rest {
								if isRead(e) {
									inLoop = true
								}
							}
							c.Ob(!inLoop && holds(o.St, ai.Le(true, mk.Res.A[2], idx)), "used", where+" all", pos, "identify can stop before the last sample")
						}
					}
				}
			}
			c.Ob(good, "used", where+" order", pos, "the block at %v is not the next sample", off)
		}
	}
}
