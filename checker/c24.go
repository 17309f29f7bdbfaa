package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// histogram describes how the collector keeps its counts: a map by id whose
// values (or what they point to) have a count.
type histogram struct {
	field  int // of the collector
	mt     *types.Map
	entry  *types.Struct
	ptr    bool
	counts []int // integer fields of an entry; -1 if the value is the count
}

func (c *Check) histogram(f *ssa.Function) *histogram {
	pt, ok := f.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		mt, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		if a, ok := mt.Key().Underlying().(*types.Array); !ok || a.Len() != 16 {
			continue
		}
		h := &histogram{field: i, mt: mt}
		v := mt.Elem().Underlying()
		if p, ok := v.(*types.Pointer); ok {
			h.ptr = true
			v = p.Elem().Underlying()
		}
		switch e := v.(type) {
		case *types.Struct:
			h.entry = e
			for k := 0; k < e.NumFields(); k++ {
				if b, ok := e.Field(k).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					h.counts = append(h.counts, k)
				}
			}
		case *types.Basic:
			h.counts = []int{-1}
		}
		return h
	}
	return nil
}

// count is the count of an id in a state: nil if there is none.
func (h *histogram) count(x *ai.Exec, st *ai.State, coll, id *ai.Term, k int) (n, has *ai.Term) {
	m := st.Load(ai.FieldAddr(coll, h.field), h.mt)
	v, ok := st.MapLookup(m, id, h.mt.Elem())
	return h.of(st, v, k), ok
}

// of is the count in a map value.
func (h *histogram) of(st *ai.State, v *ai.Term, k int) *ai.Term {
	if k < 0 {
		return v
	}
	if h.ptr {
		return st.Load(ai.FieldAddr(v, k), h.entry.Field(k).Type())
	}
	if v.Op == ai.OStruct && k < len(v.A) {
		return v.A[k]
	}
	return nil
}

// noNilValues makes map values that are pointers non-nil if every value that
// the program puts into such a map is a newly allocated object.
func (w *World) noNilValues(x *ai.Exec) {
	x.NonNilValues = func(mt *types.Map) bool {
		pt, ok := mt.Elem().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		_ = pt
		n := 0
		for _, f := range w.allFns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					mu, ok := ins.(*ssa.MapUpdate)
					if !ok || !types.Identical(mu.Map.Type().Underlying(), mt) {
						continue
					}
					n++
					if !isNew(mu.Value, 0) {
						return false
					}
				}
			}
		}
		return n > 0
	}
}

// isNew reports whether a value is always a newly allocated object.
func isNew(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !isNew(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f, ok := v.Call.Value.(*ssa.Function)
		if !ok || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !isNew(r.Results[0], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func checkC24(c *Check) {
	c.Rules = map[string]string{
		"counted":   "a block is counted for its id only if it looks like a leaf and the id is neither all zeros nor all ones",
		"counts":    "every such block is counted exactly once, for its own id",
		"threshold": "an id is reported if and only if it was counted at least as often as required",
		"entry":     "an id is reported with its own count",
		"order":     "ids are reported in descending order of count",
		"collected": "identify counts each block it has read, and no other",
		"printed":   "every reported id is printed with its count, in order, on standard output",
	}
	f, g := c.Need(identifyPkg+":FSIDCollecter.CollectBlock"), c.Need(identifyPkg+":FSIDCollecter.Entries")
	if f == nil || g == nil {
		return
	}
	h := c.histogram(f)
	if h == nil || len(h.counts) == 0 {
		c.Fail(fnShort(f), "no map from ids to counts found in the collector")
		return
	}
	k, ok := c.entriesRule(g, h)
	if !ok {
		return
	}
	for _, bs := range blockSizes {
		c.collectRule(f, h, k, bs)
	}
	for _, bs := range blockSizes {
		c.identifyCounts(bs)
	}
}

func (c *Check) collectRule(f *ssa.Function, h *histogram, k int, bs int64) {
	where, pos := fnShort(f), c.pos(f.Pos())
	var coll, blk *ai.Term
	var st0 *ai.State
	x, _, outs := c.run(f, func(x *ai.Exec, st *ai.State, args []*ai.Term) {
		c.W.noNilValues(x)
		coll, blk = args[0], args[1]
		x.Assume(st, ai.Not(ai.Eq(coll, ai.Nil)))
		x.Assume(st, ai.Eq(blk.A[2], ai.I64(bs)))
		st0 = st
	}, nil)
	st0 = st0.Clone()
	n := 0
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		st := o.St
		rd := func(off, n int64) *ai.Term { return st.ReadInt(blk.A[0], ai.AddK(blk.A[1], off), int(n), "LE") }
		var id, zs, fs []*ai.Term
		for i := int64(0); i < 16; i++ {
			id = append(id, rd(32+i, 1))
			zs = append(zs, ai.Int(8, 0))
			fs = append(fs, ai.Int(8, 255))
		}
		u, z, ff := ai.Struct(id...), ai.Struct(zs...), ai.Struct(fs...)
		level := rd(100, 1)
		c1, has1 := h.count(x, st, coll, u, k)
		s0 := st0.Clone()
		c0, has0 := h.count(x, s0, coll, u, k)
		m0 := s0.Load(ai.FieldAddr(coll, h.field), h.mt)
		// what was there before: nothing, or a count
		none := same(st, m0, ai.Nil) || notHolds(st, has0)
		if c1 == nil || c0 == nil {
			c.Fail(where, "the count of an id is not known")
			return
		}
		unchanged := same(st, c1, c0) && (none && notHolds(st, has1) || has1 == has0 || holds(st, has0) && holds(st, has1)) ||
			none && notHolds(st, has1)
		by1 := holds(st, has1) && (none && same(st, c1, ai.Int(c1.W, 1)) || holds(st, has0) && same(st, c1, ai.AddK(c0, 1)))
		others := true
		for _, e := range events(st) {
			if isMapUpdate(e) && e.Args[0] == st.Load(ai.FieldAddr(coll, h.field), h.mt) && !same(st, e.Args[1], u) {
				others = false
			}
		}
		c.Ob(others, "counts", where+" id", pos, "a block is counted for another id than its own")
		if unchanged {
			s := st.Clone()
			fits := assume(x, s, ai.Eq(level, ai.Int(8, 0)), ai.Not(ai.Eq(u, z)), ai.Not(ai.Eq(u, ff)))
			c.Ob(!fits, "counts", where, pos, "a leaf with a plausible id may not be counted")
			continue
		}
		if !c.Ob(by1, "counts", where+" once", pos, "the count changes from %v to %v", c0, c1) {
			continue
		}
		n++
		for _, bad := range []struct {
			l    *ai.Term
			what string
		}{{ai.Not(ai.Eq(level, ai.Int(8, 0))), "that is no leaf"}, {ai.Eq(u, z), "whose id is all zeros"}, {ai.Eq(u, ff), "whose id is all ones"}} {
			s := st.Clone()
			c.Ob(!assume(x, s, bad.l), "counted", where, pos, "a block %s may be counted", bad.what)
		}
	}
	c.Ob(n > 0, "counts", where+" ever", pos, "no block is counted")
}

// entriesRule checks the report of the collector and finds the field that
// holds the count.
func (c *Check) entriesRule(f *ssa.Function, h *histogram) (int, bool) {
	where, pos := fnShort(f), c.pos(f.Pos())
	res := f.Signature.Results()
	if res.Len() != 1 {
		c.Fail(where, "unexpected results")
		return 0, false
	}
	sl, ok := res.At(0).Type().Underlying().(*types.Slice)
	if !ok {
		c.Fail(where, "unexpected result")
		return 0, false
	}
	fi, ci := ai.FieldIndex(sl.Elem(), "FSID"), ai.FieldIndex(sl.Elem(), "Count")
	if fi < 0 || ci < 0 {
		c.Fail(where, "entries have no id or count")
		return 0, false
	}
	var loops []*ai.LoopRun
	var coll, min *ai.Term
	x, _, outs := c.run(f, func(x *ai.Exec, st *ai.State, args []*ai.Term) {
		c.W.noNilValues(x)
		x.OnLoop = func(l *ai.LoopRun) { loops = append(loops, l) }
		coll, min = args[0], args[1]
		x.Assume(st, ai.Not(ai.Eq(coll, ai.Nil)))
	}, nil)
	ours := func(st *ai.State, e *ai.Event) bool {
		return e.Kind == "mapnext" && same(st, e.Args[0], st.Load(ai.FieldAddr(coll, h.field), h.mt))
	}
	field, found := 0, false
	for _, k := range h.counts {
		good, n := true, 0
		for _, l := range loops {
			for _, b := range l.Backs {
				for _, e := range since(b.Path.St, l.Ev) {
					if ours(b.Path.St, e) {
						for _, q := range since(b.Path.St, e) {
							if q.Kind != "append" || !types.Identical(x.ElemType(q), sl.Elem()) {
								continue
							}
							n++
							el := b.Path.St.ReadElem(q.Args[1].A[0], q.Args[1].A[1], sl.Elem())
							if el.Op != ai.OStruct || !same(b.Path.St, el.A[ci], h.of(b.Path.St, e.Args[3], k)) {
								good = false
							}
						}
					}
				}
			}
		}
		if good && n > 0 {
			field, found = k, true
			break
		}
	}
	if !c.Ob(found, "entry", where+" count", pos, "the count reported for an id is not the one collected for it") {
		return 0, false
	}
	k := field
	n := 0
	for _, l := range loops {
		for _, b := range l.Backs {
			st := b.Path.St
			var nx *ai.Event
			var apps []*ai.Event
			for _, e := range since(st, l.Ev) {
				switch {
				case ours(st, e):
					nx = e
				case e.Kind == "append" && types.Identical(x.ElemType(e), sl.Elem()):
					apps = append(apps, e)
				}
			}
			if nx == nil {
				c.Ob(len(apps) == 0, "threshold", where, pos, "ids are reported that are not in the collection")
				continue
			}
			n++
			cnt := h.of(st, nx.Args[3], k)
			enough := ai.Le(false, min, cnt)
			if len(apps) == 0 {
				c.Ob(notHolds(st, enough), "threshold", where, pos, "an id counted %v times may be left out although %v times are enough", cnt, min)
				continue
			}
			c.Ob(holds(st, enough), "threshold", where, pos, "an id counted %v times may be reported although %v times are required", cnt, min)
			c.Ob(len(apps) == 1, "entry", where+" once", pos, "an id is reported more than once")
			el := st.ReadElem(apps[0].Args[1].A[0], apps[0].Args[1].A[1], sl.Elem())
			c.Ob(el.Op == ai.OStruct && same(st, el.A[fi], nx.Args[2]), "entry", where+" id", pos, "another id is reported")
		}
	}
	c.Ob(n > 0, "threshold", where+" all", pos, "no loop goes over the collected ids")
	for _, o := range outs {
		if o.Kind != "return" {
			c.Ob(false, "entry", where+" returns", pos, "does not return")
			continue
		}
		st := o.St
		// the map is gone through to its end
		end := false
		var ev *ai.Event
		for _, e := range events(st) {
			switch e.Kind {
			case "mapend":
				m := st.Load(ai.FieldAddr(coll, h.field), h.mt)
				if same(st, e.Args[0], m) {
					end = true
				}
			case "sort":
				ev = e
			}
		}
		if o.Ret.Op == ai.OSlice && same(st, o.Ret.A[2], ai.I64(0)) && ev == nil && end {
			continue
		}
		c.Ob(end, "threshold", where+" end", pos, "not all collected ids are looked at")
		if !c.Ob(ev != nil && o.Ret.Op == ai.OSlice && ai.Sorted(ev).Op == ai.OSlice && ai.Sorted(ev).A[0] == o.Ret.A[0] && same(st, ai.Sorted(ev).A[2], o.Ret.A[2]),
			"order", where, pos, "the reported ids are not sorted") {
			continue
		}
		d := c.sortDirection(x, st, ev, func(s *ai.State, i *ai.Term) *ai.Term {
			v := s.ReadElem(o.Ret.A[0], ai.Add(o.Ret.A[1], i), sl.Elem())
			if v.Op != ai.OStruct {
				return nil
			}
			return v.A[ci]
		})
		c.Ob(d == -1, "order", where, pos, "the reported ids are not in descending order of count")
	}
	return k, true
}

// identifyCounts checks that identify counts what it reads and prints what is
// reported.
func (c *Check) identifyCounts(bs int64) {
	r := c.identify(bs)
	if r == nil {
		return
	}
	K := ai.I64(bs)
	collects := func(es []*ai.Event) (r []*ai.Event) {
		for _, e := range es {
			if evIs(e, "FSIDCollecter).CollectBlock") {
				r = append(r, e)
			}
		}
		return
	}
	for _, l := range r.blockLoops() {
		where, pos := loopWhere(l), c.loopPos(l)
		for _, b := range l.Backs {
			st := b.Path.St
			es := since(st, l.Ev)
			var rd *ai.Event
			for _, e := range es {
				if isRead(e) {
					rd = e
				}
			}
			cs := collects(es)
			if rd == nil {
				c.Ob(len(cs) == 0, "collected", where, pos, "something is counted that was not read")
				continue
			}
			buf, _, n, _ := readParts(rd)
			if n == nil || !same(st, n, K) {
				c.Ob(len(cs) == 0, "collected", where+" unread", pos, "a block that could not be read is counted")
				continue
			}
			good := len(cs) == 1 && cs[0].Args[1].Op == ai.OSlice && cs[0].Args[1].A[0] == buf.A[0] && same(st, cs[0].Args[1].A[1], buf.A[1]) && same(st, cs[0].Args[1].A[2], K)
			c.Ob(good, "collected", where, pos, "a block that was read is counted %d times", len(cs))
		}
	}
	tested := 0
	for _, o := range r.outs {
		if o.Kind != "return" {
			continue
		}
		es := events(o.St)
		ents := named(es, "FSIDCollecter).Entries")
		if !c.Ob(len(ents) == 1 && ents[0].Res.Op == ai.OSlice, "printed", r.name, "", "the collected ids are not reported once") {
			continue
		}
		ent := ents[0]
		c.Ob(len(collects(es)) == 0, "collected", r.name, "", "blocks are counted outside of the loop over the samples")
		// the collector that was filled, and the limit that was asked for
		for _, l := range r.blockLoops() {
			if !traceHas(o.St, l.Ev) {
				continue
			}
			for _, b := range l.Backs {
				for _, e := range collects(since(b.Path.St, l.Ev)) {
					c.Ob(same(o.St, e.Args[0], ent.Args[0]), "collected", r.name+" collector", "", "another collector is reported than the one filled")
				}
			}
		}
		if a, t := c.W.flagPlace(c.W.commands()["identify"], "min-occurrence"); a != nil {
			c.Ob(same(o.St, ent.Args[1], o.St.Load(a, t)), "threshold", r.name, "", "the limit used is not the one asked for")
		} else {
			c.Fail(r.name, "option min-occurrence not found")
		}
		// every element is printed
		var pl *ai.LoopRun
		for _, l := range r.loops {
			if traceHas(o.St, l.Ev) && len(since(l.Entry, ent)) >= 0 && traceHas(l.Entry, ent) {
				pl = l
				tested++
				c.printsAll(r, o, l, ent)
			}
		}
		c.Ob(pl != nil, "printed", r.name, "", "the reported ids are not printed")
		var flushed, tab bool
		for _, e := range es {
			if evIs(e, "tabwriter.NewWriter") {
				tab = true
				c.Ob(termContainsName(e.Args[0], "os.Stdout"), "printed", r.name+" output", c.pos(e.Instr.Pos()), "the ids are not printed on standard output")
			}
			if evIs(e, "Writer).Flush") && tab {
				flushed = true
			}
		}
		c.Ob(!tab || flushed, "printed", r.name+" flush", "", "the output is not flushed")
	}
	c.Ob(tested > 0, "printed", r.name+" ever", "", "nothing is printed")
}

func termContainsName(t *ai.Term, n string) bool {
	found := false
	t.Walk(func(s *ai.Term) bool {
		if s.Op == ai.OApp && (s.S == "nn:"+n || s.S == n) {
			found = true
		}
		return !found
	})
	return found
}

// printsAll checks a loop that prints the reported entries.
func (c *Check) printsAll(r *Recon, o ai.Outcome, l *ai.LoopRun, ent *ai.Event) {
	where, pos := loopWhere(l)+" print", c.loopPos(l)
	et := c.namedType(identifyPkg, "FSEntry")
	if et == nil {
		return
	}
	fi, ci := ai.FieldIndex(et, "FSID"), ai.FieldIndex(et, "Count")
	good := holds(o.St, ai.Le(true, ent.Res.A[2], ai.I64(0)))
	for _, ct := range counters(l) {
		for _, k := range []int64{0, 1} {
			idx := ai.AddK(ct.sym, k)
			if ct.step != ai.I64(1) || ai.Add(ct.from, ai.I64(k)) != ai.I64(0) || !holds(o.St, ai.Le(true, ent.Res.A[2], idx)) {
				continue
			}
			all := true
			for _, b := range l.Backs {
				st := b.Path.St
				el := st.ReadElem(ent.Res.A[0], ai.Add(ent.Res.A[1], idx), et)
				n := 0
				for _, e := range since(st, l.Ev) {
					if isPrint(e) && el.Op == ai.OStruct && prints(st, e, el.A[fi]) && prints(st, e, el.A[ci]) && !toStderr(e) {
						n++
					}
				}
				if n != 1 {
					all = false
				}
			}
			good = good || all
		}
	}
	c.Ob(good, "printed", where, pos, "not every reported id is printed exactly once with its count, in order")
}

var _ = fmt.Sprint
