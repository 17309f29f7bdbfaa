package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C37"] = checkC37 }

// Mapping is the address map as it is built.
type Mapping struct {
	c          *Check
	where, pos string
	ix, addr   *ai.Term
	start, off int // fields of its entries
}

// allChunks reports whether a range has all chunks of an index.
func (m *Mapping) allChunks(r *ai.Term) bool {
	if r == nil || r.S != "range" || len(r.A) != 8 || r.A[0] != m.ix {
		return false
	}
	n := func(t *ai.Term, v uint64) bool { return t == ai.Int(t.W, v) }
	return n(r.A[1], 3) && n(r.A[2], 228) && n(r.A[5], 228) && n(r.A[3], 256) && n(r.A[6], 256) && isInt(r.A[4], 0) && r.A[7] == ai.I64(-1)
}

// chunkStart is the position of the chunk whose start a term is.
func (m *Mapping) chunkStart(t *ai.Term) *ai.Term {
	if t.Op == ai.OApp && t.S == "rngoff" && len(t.A) == 2 && m.allChunks(t.A[0]) {
		return t.A[1]
	}
	return nil
}

// firstStripe is the position of the chunk that a term is the offset of the
// first stripe of.
func (m *Mapping) firstStripe(t *ai.Term) *ai.Term {
	if t.Op != ai.OApp || !strings.HasSuffix(t.S, "Stripe.Offset") || len(t.A) != 1 {
		return nil
	}
	b := t.A[0]
	if b.Op != ai.OApp || b.S != "bytes" || len(b.A) != 3 || b.A[1] != ai.I64(48) {
		return nil
	}
	is := apps(b.A[0], "rngitem")
	if len(is) != 1 || !m.allChunks(is[0].A[0]) {
		return nil
	}
	return is[0].A[1]
}

func checkC37(c *Check) {
	c.Rules = map[string]string{
		"built":    "the address map has the start and the offset of the first stripe of each chunk that has stripes, in the order of the index",
		"position": "an address is mapped to the offset of the first stripe of a chunk, plus the distance of the address from the start of the chunk",
		"chosen":   "the chunk is the last one that does not start after the address",
		"unmapped": "only addresses before the first chunk are not mapped",
	}
	f := c.Need(indexPkg + ":Index.Physical")
	if f == nil {
		return
	}
	m := &Mapping{c: c, where: fnShort(f), pos: c.pos(f.Pos()), start: -1, off: -1}
	var loops []*ai.LoopRun
	var x *ai.Exec
	_, args, outs := c.readFunction(f, func(e *ai.Exec) {
		x = e
		x.OnLoop = func(l *ai.LoopRun) { loops = append(loops, l) }
	})
	if len(args) != 2 {
		c.Fail("Physical", "unexpected parameters")
		return
	}
	m.ix, m.addr = args[0], args[1]
	for _, l := range loops {
		m.built(x, l)
	}
	if !c.Ob(m.start >= 0 && m.off >= 0, "built", m.where, m.pos, "no address map is built from all chunks") {
		return
	}
	for _, o := range outs {
		if o.Kind != "return" || infeasible(o.St) || o.Ret.Op != ai.OTuple || len(o.Ret.A) != 3 {
			continue
		}
		switch {
		case o.Ret.A[2].True():
			c.Counts["mapped"]++
			m.mapped(o.St, o.Ret.A[1])
		case o.Ret.A[2].False():
			c.Counts["unmapped"]++
			m.unmapped(o.St)
		default:
			c.Ob(false, "unmapped", m.where, m.pos, "it is not known whether the address is mapped")
		}
	}
	c.Ob(c.Counts["mapped"] > 0, "position", m.where, m.pos, "no address is mapped")
}

// built decides that a loop adds the chunks to the map.
func (m *Mapping) built(x *ai.Exec, l *ai.LoopRun) {
	c := m.c
	where, pos := loopWhere(l), c.loopPos(l)
	var at, rng *ai.Term
	elems := map[*ai.Event]*ai.Term{}
	for _, b := range l.Backs {
		for _, e := range since(b.Path.St, l.Ev) {
			ins, ok := e.Instr.(ssa.Value)
			if e.Kind != "append" || !ok || len(e.Args) < 2 {
				continue
			}
			sl, ok := ins.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			es := x.Unlist(b.Path.St, e.Args[1], sl.Elem())
			if len(es) != 1 || es[0].Op != ai.OStruct {
				continue
			}
			elems[e] = es[0]
			for i, t := range es[0].A {
				if p := m.chunkStart(t); p != nil && contained(l.Syms, p) {
					at, rng, m.start = p, t.A[0], i
				}
				if p := m.firstStripe(t); p != nil && contained(l.Syms, p) {
					m.off = i
				}
			}
		}
	}
	if at == nil {
		return
	}
	for _, i := range append([]map[*ai.Term]*ai.Term{l.Init}, l.MoreInit...) {
		c.Ob(ai.Subst(at, i) == ai.I64(0), "built", where, pos, "the first chunk may be passed over")
	}
	for _, e := range l.Exits {
		if !infeasible(e) {
			c.Ob(notHolds(e, ai.Lt(true, at, ai.App("rngcount", 64, rng))), "built", where, pos, "the loop may be left before the last chunk")
		}
	}
	for _, b := range l.Backs {
		st := b.Path.St
		if infeasible(st) {
			continue
		}
		c.Ob(same(st, ai.Subst(at, b.Next), ai.AddK(at, 1)), "built", where, pos, "the next chunk is not the one that follows")
		n := 0
		good := true
		for _, e := range since(st, l.Ev) {
			if s := elems[e]; s != nil {
				n++
				good = good && m.chunkStart(s.A[m.start]) == at && m.off >= 0 && m.firstStripe(s.A[m.off]) == at
			}
		}
		if n == 0 {
			st.Facts.Each(func(f *ai.Term) bool {
				for _, t := range apps(f, "pkg/btrfs.Chunk.NumStripes") {
					if is := apps(t, "rngitem"); len(is) == 1 && is[0].A[1] == at && holds(st, ai.Eq(t, ai.Int(t.W, 0))) {
						n = 1
					}
				}
				return n == 0
			})
			c.Ob(n == 1, "built", where, pos, "a chunk that has stripes may be left out")
			continue
		}
		c.Ob(n == 1 && good, "built", where, pos, "what is added are not the start and the offset of the first stripe of the chunk")
	}
}

// starts lists the terms that are the start of an entry of the map, with the
// position of the entry.
func (m *Mapping) starts(t *ai.Term, add func(start, idx *ai.Term)) {
	t.Walk(func(s *ai.Term) bool {
		if s.Op != ai.OApp {
			return true
		}
		if p := m.chunkStart(s); p != nil && p.Op == ai.OApp && strings.HasPrefix(p.S, "inst:") && len(p.A) >= 2 {
			add(s, p.A[1])
			return false
		}
		if m.entry(s, m.start) {
			add(s, s.A[1])
			return false
		}
		return true
	})
}

// entry reports whether a term is a field of an entry of the map.
func (m *Mapping) entry(t *ai.Term, field int) bool {
	return t.Op == ai.OApp && len(t.A) == 2 && t.S == "elem."+string(rune('0'+field)) && termContains(t.A[0], m.ix)
}

// lengths lists terms that are the length of the map.
func (m *Mapping) lengths(st *ai.State) []*ai.Term {
	var r []*ai.Term
	for e := st.Trace; e != nil; e = e.Prev {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "sort.Search") && len(e.Args) == 2 {
			r = append(r, e.Args[0])
		}
	}
	st.Facts.Each(func(f *ai.Term) bool {
		for _, t := range apps(f, "len") {
			if termContains(t, m.ix) && len(apps(t, "range")) == 0 {
				r = append(r, t)
			}
		}
		return true
	})
	return r
}

func (m *Mapping) mapped(st *ai.State, pos *ai.Term) {
	c := m.c
	var start, idx, off *ai.Term
	m.starts(pos, func(s, i *ai.Term) { start, idx = s, i })
	if !c.Ob(start != nil, "position", m.where, m.pos, "the position does not depend on the start of a chunk of the map") {
		return
	}
	pos.Walk(func(s *ai.Term) bool {
		if p := m.firstStripe(s); p != nil && p.Op == ai.OApp && strings.HasPrefix(p.S, "inst:") && len(p.A) >= 2 && p.A[1] == idx || m.entry(s, m.off) && s.A[1] == idx {
			off = s
		}
		return off == nil
	})
	if !c.Ob(off != nil, "position", m.where, m.pos, "the position does not depend on the first stripe of the same chunk") {
		return
	}
	c.Ob(same(st, pos, ai.Add(ai.Sub(m.addr, start), off)), "position", m.where, m.pos, "the position is not the offset of the stripe plus the distance from the start of the chunk")
	c.Ob(holds(st, ai.Le(false, start, m.addr)), "chosen", m.where, m.pos, "the chunk may start after the address")
	next := ai.Subst(start, map[*ai.Term]*ai.Term{idx: ai.AddK(idx, 1)})
	ok := holds(st, ai.Eq(start, m.addr)) || m.after(st, next)
	for _, n := range m.lengths(st) {
		ok = ok || holds(st, ai.Le(true, n, ai.AddK(idx, 1)))
	}
	c.Ob(ok, "chosen", m.where, m.pos, "a later chunk may start before the address")
}

// after decides that a chunk starts after the address.
func (m *Mapping) after(st *ai.State, start *ai.Term) bool {
	return holds(st, ai.Lt(false, m.addr, start)) || notHolds(st, ai.Lt(false, start, m.addr)) && notHolds(st, ai.Eq(start, m.addr))
}

func (m *Mapping) unmapped(st *ai.State) {
	ok := false
	for _, n := range m.lengths(st) {
		ok = ok || holds(st, ai.Le(true, n, ai.I64(0)))
	}
	st.Facts.Each(func(f *ai.Term) bool {
		m.starts(f, func(s, i *ai.Term) { ok = ok || isInt(i, 0) && m.after(st, s) })
		return !ok
	})
	m.c.Ob(ok, "unmapped", m.where, m.pos, "an address after the start of the first chunk may not be mapped")
}
