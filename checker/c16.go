package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C16"] = checkC16 }

const (
	extentField = "pkg/btrfs.FileExtentItem."
	sizeField   = "pkg/btrfs.InodeItem.Size"
	extentData  = 108
	cameUp      = "came up" // marks errors
)

// Copying follows file content from the device to where it goes.
type Copying struct {
	c       *Check
	content map[*ai.Event]*ai.Term // what is written, by its origin
	start   map[*ai.Event]*ai.Term // where it starts there
	reads   map[*ai.Event]*ai.Event
	good    map[*ai.Event]bool        // loops that copy an extent from its start on
	by      map[*ai.Term]*ai.Term     // positions in loops by others
	pos     map[*ai.Event][2]*ai.Term // how far they have come, and the length of the extent
}

// apps lists the applications of a function in a term, by the end of its name.
func apps(t *ai.Term, name string) []*ai.Term {
	var r []*ai.Term
	t.Walk(func(s *ai.Term) bool {
		if s.Op == ai.OApp && (s.S == name || strings.HasSuffix(s.S, name) && strings.HasPrefix(name, "pkg/")) {
			r = append(r, s)
			return false
		}
		return true
	})
	return r
}

// of is a field of the extent that is described by data.
func of(field string, w int, data *ai.Term) *ai.Term {
	return ai.App(extentField+field, w, data)
}

// extentOf is the item data that a mapped address was read from.
func extentOf(phys *ai.Term) *ai.Term {
	if len(phys.A) != 2 {
		return nil
	}
	a := phys.A[1]
	if a.Op == ai.OApp && strings.HasSuffix(a.S, extentField+"DiskByteNr") && len(a.A) == 1 {
		return a.A[0]
	}
	return nil
}

// rangeItem is the range and the position that item data was taken from.
func rangeItem(data *ai.Term) (rng, at *ai.Term) {
	if data.Op == ai.OApp && strings.HasSuffix(data.S, "Item.Data") && len(data.A) == 1 {
		data = data.A[0]
	}
	if data.Op == ai.OApp && data.S == "rngitem" && len(data.A) == 2 {
		return data.A[0], data.A[1]
	}
	return nil, nil
}

// allExtents reports whether a range has all extents of one inode.
func allExtents(r *ai.Term) bool {
	if r == nil || r.S != "range" || len(r.A) != 8 {
		return false
	}
	t := ai.Int(r.A[2].W, extentData)
	return r.A[2] == t && r.A[5] == ai.Int(r.A[5].W, extentData) && r.A[3] == r.A[6] && isInt(r.A[4], 0) && r.A[7] == ai.I64(-1)
}

func (k *Copying) note(x *ai.Exec, e *ai.Event) {
	if e.Kind != "call" || e.St == nil {
		return
	}
	if t := failed(e); t != nil {
		e.St.SetGhost(t, cameUp, ai.I64(1))
	}
	if !isWriteAt(e) {
		return
	}
	s := e.Args[1]
	if s.Op != ai.OSlice {
		return
	}
	c, o := e.St.Content(s.A[0], s.A[1], s.A[2])
	k.content[e], k.start[e] = c, o
}

func isWriteAt(e *ai.Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, "WriteAt") && len(e.Args) == 3 && e.Args[1].Op == ai.OSlice
}

func isDeviceRead(e *ai.Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, "ReadAt") && len(e.Args) == 3 && e.Args[1].Op == ai.OSlice
}

// facts makes a state of what was known at an event.
func factsAt(e *ai.Event) *ai.State { return &ai.State{Facts: e.Facts} }

// source checks where a device read takes place. It gives the item data of the
// extent and the distance from its start.
func (k *Copying) source(e *ai.Event) (data, dist *ai.Term, why string) {
	at := ai.Subst(e.Args[2], k.by)
	ps := apps(at, "physoff")
	if len(ps) != 1 {
		return nil, nil, "the position read is not that of a mapped address"
	}
	data = extentOf(ps[0])
	if data == nil {
		return nil, nil, "the address that is mapped is not that of an extent"
	}
	st := factsAt(e)
	if !holds(st, ai.App("physok", 0, ps[0].A...)) {
		return nil, nil, "the address may not be mapped"
	}
	off := of("Offset", 64, data)
	if as := apps(at, extentField+"Offset"); len(as) == 1 && as[0].A[0] == data {
		off = as[0]
	}
	return data, ai.Sub(ai.Sub(at, ps[0]), off), ""
}

// field finds a field of an extent in a term or the facts, to get its exact
// form.
func extField(name string, w int, data *ai.Term, phys *ai.Term) *ai.Term {
	full := extentField + name
	phys.Walk(func(s *ai.Term) bool {
		if s.Op == ai.OApp && strings.HasSuffix(s.S, extentField+"DiskByteNr") && s.A[0] == data {
			full = strings.TrimSuffix(s.S, "DiskByteNr") + name
			return false
		}
		return true
	})
	return ai.App(full, w, data)
}

// read finds a field of an extent that was read on the way to a state.
func (k *Copying) read(name string, w int, data *ai.Term, st *ai.State, phys *ai.Term) *ai.Term {
	var r *ai.Term
	st.Facts.Each(func(f *ai.Term) bool {
		for _, t := range apps(f, extentField+name) {
			if len(t.A) == 1 && t.A[0] == data {
				r = t
			}
		}
		return r == nil
	})
	return r
}

func checkC16(c *Check) {
	c.Rules = map[string]string{
		"source":  "content is read from the device only at the mapped address of an extent plus the extent's offset plus the distance from the start of the extent, and not beyond its end",
		"target":  "what was read goes to the place in the file with the same distance from the place of the extent, and nothing else is written",
		"inline":  "inline content is that of the extent item itself, and goes to the place of the extent",
		"whole":   "copying an extent starts at its start, goes on where it stopped and ends only at its end",
		"size":    "when nothing failed, a restored file has the size that its inode records, whatever its extents are",
		"every":   "each extent of the file is copied, from the first to the last; only holes and extents without content are passed over",
		"content": "the device is read only for extents that have content there: no holes, and none that are only preallocated",
	}
	k := &Copying{c: c, content: map[*ai.Event]*ai.Term{}, start: map[*ai.Event]*ai.Term{}, reads: map[*ai.Event]*ai.Event{}, good: map[*ai.Event]bool{}, pos: map[*ai.Event][2]*ai.Term{}}
	c.onEvent = k.note
	rec := c.viewCommand("recover", nil)
	c.onEvent = nil
	for _, p := range rec.parts {
		k.restored(p)
	}
	c.Ob(c.Counts["device reads"] > 0 && c.Counts["writes"] > 0, "source", "recover", "", "recover copies nothing")
}

// restored checks the copying in a part of recover.
func (k *Copying) restored(p *Part) {
	c := k.c
	dist := map[*ai.Event]*ai.Term{}
	k.by = map[*ai.Term]*ai.Term{}
	for _, l := range p.loops {
		lockstep(l, k.by)
	}
	data := map[*ai.Event]*ai.Term{}
	for _, e := range p.all {
		if isDeviceRead(e) {
			c.Counts["device reads"]++
			w, pos := eventWhere(c, e)
			d, n, why := k.source(e)
			if !c.Ob(why == "", "source", w, pos, "%s", why) {
				continue
			}
			data[e], dist[e] = d, n
		}
	}
	for _, e := range p.all {
		if !isWriteAt(e) {
			continue
		}
		c.Counts["writes"]++
		w, pos := eventWhere(c, e)
		st, s := factsAt(e), e.Args[1]
		var rd *ai.Event
		for q := e.Prev; q != nil && rd == nil; q = q.Prev {
			if isDeviceRead(q) && q.Args[1].A[0] == s.A[0] {
				rd = q
			}
		}
		if rd == nil {
			k.inline(p, e)
			continue
		}
		d := data[rd]
		if d == nil {
			continue
		}
		rng, at := rangeItem(d)
		if !c.Ob(allExtents(rng), "target", w, pos, "the extent is not taken from all extents of the file") {
			continue
		}
		n := ai.Sub(k.from(e), ai.App("rngoff", 64, rng, at))
		c.Ob(same(st, n, dist[rd]), "target", w, pos, "the distance from the start of the extent is not the one that was read at")
		c.Ob(same(st, s.A[1], rd.Args[1].A[1]), "target", w, pos, "it is not the start of what was read that is written")
		got := rd.Res.A[0]
		c.Ob(holds(st, ai.Le(true, s.A[2], got)), "target", w, pos, "more is written than was read")
		num := extField("NumBytes", 64, d, k.from(rd))
		c.Ob(holds(st, ai.Le(false, ai.Add(dist[rd], s.A[2]), num)), "target", w, pos, "bytes beyond the end of the extent may be written")
		k.reads[e] = rd
	}
	// what is read but not written to a file is read in one piece
	wrote := map[ssa.Instruction]bool{}
	for _, rd := range k.reads {
		wrote[rd.Instr] = true
	}
	for _, e := range p.all {
		d := data[e]
		if d == nil || !isDeviceRead(e) {
			continue
		}
		w, pos := eventWhere(c, e)
		st := factsAt(e)
		if wrote[e.Instr] {
			ph := apps(k.from(e), "physoff")[0]
			typ, nr := k.read("Type", 8, d, st, k.from(e)), ph.A[1]
			c.Ob(typ != nil && notHolds(st, ai.Eq(typ, ai.Int(typ.W, 2))) && notHolds(st, ai.Eq(nr, ai.Int(nr.W, 0))), "content", w, pos, "the extent may be a hole or only preallocated")
			continue
		}
		c.Counts["reads in one piece"]++
		num := extField("NumBytes", 64, d, k.from(e))
		c.Ob(same(st, dist[e], ai.I64(0)) && same(st, e.Args[1].A[2], num), "whole", w, pos, "the extent may not be read from its start to its end")
	}
	// the loops that copy one extent
	for _, l := range p.loops {
		for _, b := range l.Backs {
			for _, e := range since(b.Path.St, l.Ev) {
				if rd := k.reads[e]; rd != nil && data[rd] != nil && dist[rd] != nil && contained(l.Syms, ai.Subst(dist[rd], map[*ai.Term]*ai.Term{data[rd]: ai.Nil})) && !k.good[l.Ev] {
					k.good[l.Ev] = k.wholeExtent(p, l, data[rd], dist[rd], rd)
				}
			}
		}
	}
	k.size(p)
	// the loops over extents
	for _, l := range p.loops {
		k.everyExtent(p, l, data)
	}
}

// lockstep expresses symbols of a loop that stand for positions by others that
// change with them, by the same amount in every iteration.
func lockstep(l *ai.LoopRun, m map[*ai.Term]*ai.Term) {
	inits := append([]map[*ai.Term]*ai.Term{l.Init}, l.MoreInit...)
	position := func(s *ai.Term) bool {
		i := l.Init[s]
		return i != nil && s.W == 64 && (len(apps(i, "physoff")) > 0 || len(apps(i, "rngoff")) > 0)
	}
	// related gives s by b.
	related := func(s, b *ai.Term) *ai.Term {
		for _, sign := range []int64{1, -1} {
			var k *ai.Term
			ok := len(l.Backs) > 0
			for _, i := range inits {
				if i[s] == nil || i[b] == nil || i[s].W != i[b].W {
					return nil
				}
				d := ai.Sub(i[s], ai.Mul(ai.I64(sign), i[b]))
				ok = ok && (k == nil || k == d)
				k = d
			}
			for _, n := range l.Backs {
				if !infeasible(n.Path.St) {
					ok = ok && same(n.Path.St, ai.Sub(ai.Subst(s, n.Next), s), ai.Mul(ai.I64(sign), ai.Sub(ai.Subst(b, n.Next), b)))
				}
			}
			if ok {
				return ai.Add(k, ai.Mul(ai.I64(sign), b))
			}
		}
		return nil
	}
	for _, free := range []bool{false, true} {
		for i, s := range l.Syms {
			if !position(s) || m[s] != nil {
				continue
			}
			for j, b := range l.Syms {
				if b == s || b.W != 64 || m[b] != nil || position(b) != free || free && j > i {
					continue
				}
				if t := related(s, b); t != nil && t != s {
					m[s] = t
					break
				}
			}
		}
	}
}

// from is the position of a read or write.
func (k *Copying) from(e *ai.Event) *ai.Term { return ai.Subst(e.Args[2], k.by) }

func contained(syms []*ai.Term, t *ai.Term) bool {
	for _, s := range syms {
		if termContains(t, s) {
			return true
		}
	}
	return false
}

// copied is how much of an extent the events have copied.
func (k *Copying) copied(es []*ai.Event, at *ai.Term) (*ai.Term, bool) {
	n := at
	for _, e := range es {
		if rd := k.reads[e]; rd != nil {
			n = ai.Add(n, e.Args[1].A[2])
		}
	}
	return n, true
}

// wholeExtent decides that a loop copies an extent from its start to its end.
func (k *Copying) wholeExtent(p *Part, l *ai.LoopRun, data, at *ai.Term, rd *ai.Event) bool {
	c := k.c
	where, pos := loopWhere(l), c.loopPos(l)
	ok := true
	for _, m := range append([]map[*ai.Term]*ai.Term{l.Init}, l.MoreInit...) {
		ok = c.Ob(ai.Subst(at, m) == ai.I64(0), "whole", where, pos, "copying may not begin at the start of the extent") && ok
	}
	num := extField("NumBytes", 64, data, k.from(rd))
	for _, b := range l.Backs {
		if infeasible(b.Path.St) {
			continue
		}
		n, _ := k.copied(since(b.Path.St, l.Ev), at)
		ok = c.Ob(same(b.Path.St, ai.Subst(at, b.Next), n), "whole", where, pos, "copying may not go on where it stopped") && ok
	}
	k.pos[l.Ev] = [2]*ai.Term{at, num}
	return ok
}

// atEnd decides that a loop that copies an extent has come to its end.
func (k *Copying) atEnd(st *ai.State, loop *ai.Event) bool {
	q := k.pos[loop]
	n, _ := k.copied(since(st, loop), q[0])
	return holds(st, ai.Le(false, q[1], n))
}

// inline checks a write of something that was not read from the device.
func (k *Copying) inline(p *Part, e *ai.Event) {
	c := k.c
	w, pos := eventWhere(c, e)
	ct, o := k.content[e], k.start[e]
	var d *ai.Term
	if ct != nil {
		for _, t := range apps(ct, extentField+"Data") {
			d = t
		}
	}
	if !c.Ob(d != nil && isInt(o, 0), "inline", w, pos, "what is written is neither read from the device nor the start of inline content") {
		return
	}
	rng, at := rangeItem(d.A[0])
	if !c.Ob(allExtents(rng), "inline", w, pos, "the content is not that of an extent of the file") {
		return
	}
	st := factsAt(e)
	c.Ob(same(st, e.Args[2], ai.App("rngoff", 64, rng, at)), "inline", w, pos, "the content is not written at the place of the extent")
	n := e.Args[1].A[2]
	okLen := same(st, n, ai.StrLen(d))
	if !okLen {
		st.Facts.Each(func(f *ai.Term) bool {
			for _, sz := range apps(f, sizeField) {
				okLen = okLen || same(st, ai.Add(n, ai.App("rngoff", 64, rng, at)), sz)
			}
			return !okLen
		})
	}
	c.Ob(okLen, "inline", w, pos, "neither all of the content nor the part up to the end of the file is written")
}

// size decides that files that are complete have the size of their inode.
func (k *Copying) size(p *Part) {
	c := k.c
	writing := map[*ai.Event]bool{}
	for _, l := range p.loops {
		for _, b := range l.Backs {
			for _, e := range since(b.Path.St, l.Ev) {
				writing[l.Ev] = writing[l.Ev] || isWriteAt(e)
			}
		}
	}
	for _, e := range p.all {
		if e.Kind != "call" || !strings.HasSuffix(e.Name, "File).Close") || len(e.Args) != 1 {
			continue
		}
		var open, cut *ai.Event
		var rng *ai.Term
		bad, late := false, false
		for q := e.Prev; q != nil && open == nil; q = q.Prev {
			bad = bad || failed(q) != nil
			switch {
			case q.Kind == "call" && strings.HasSuffix(q.Name, "os.OpenFile") && q.Res != nil && len(q.Res.A) == 2 && q.Res.A[0] == e.Args[0]:
				open = q
			case q.Kind == "call" && strings.HasSuffix(q.Name, "File).Truncate") && len(q.Args) == 2 && q.Args[0] == e.Args[0] && cut == nil:
				cut = q
			case (isWriteAt(q) || writing[q]) && cut == nil:
				late = true
			}
		}
		if open == nil || bad || len(open.Args) != 3 || !open.Args[1].IsConst() || open.Args[1].SVal()&3 == 0 {
			continue // not for writing, or failed
		}
		for q := e.Prev; q != nil && rng == nil; q = q.Prev {
			if q.Kind == "range" {
				for _, a := range q.Args {
					if allExtents(a) {
						rng = a
					}
				}
			}
		}
		st := factsAt(e)
		if infeasible(st) || unmappedExtent(st) {
			continue
		}
		w, pos := eventWhere(c, e)
		c.Counts["files closed"]++
		if !c.Ob(rng != nil, "size", w, pos, "a file may be restored without looking for its extents") {
			continue
		}
		if !c.Ob(cut != nil && !late, "size", w, pos, "the size of the file is not set after its content was written") {
			continue
		}
		ofFile := func(i *ai.Term) bool {
			return len(i.A) == 5 && i.A[0] == rng.A[0] && i.A[1] == rng.A[1] && i.A[2] == ai.Int(i.A[2].W, 1) && i.A[3] == rng.A[3]
		}
		ok := false
		for _, sz := range apps(cut.Args[1], sizeField) {
			for _, i := range apps(sz, "item") {
				ok = ok || sz == cut.Args[1] && ofFile(i)
			}
		}
		if !ok { // there is no inode
			st.Facts.Each(func(f *ai.Term) bool {
				f.Walk(func(t *ai.Term) bool {
					if t.Op == ai.OApp && t.S == "len" && len(apps(t, "item")) == 1 && ofFile(apps(t, "item")[0]) {
						ok = ok || holds(st, ai.Lt(true, t, ai.I64(inodeSize)))
					}
					return !ok
				})
				return !ok
			})
		}
		c.Ob(ok, "size", w, pos, "the size of the file is not set to the one that its inode records")
	}
}

// unmappedExtent reports whether the address of an extent is not mapped.
func unmappedExtent(st *ai.State) bool {
	r := false
	st.Facts.Each(func(f *ai.Term) bool {
		r = f.Op == ai.ONot && f.A[0].Op == ai.OApp && f.A[0].S == "physok"
		return !r
	})
	return r
}

// everyExtent decides that a loop over the extents of a file copies each of
// them.
func (k *Copying) everyExtent(p *Part, l *ai.LoopRun, datas map[*ai.Event]*ai.Term) {
	c := k.c
	// the position: the one of an item that something is written of
	var rng, at *ai.Term
	find := func(es []*ai.Event) {
		for _, e := range es {
			var d *ai.Term
			if rd := k.reads[e]; rd != nil {
				d = datas[rd]
			} else if isWriteAt(e) && k.content[e] != nil {
				for _, t := range apps(k.content[e], extentField+"Data") {
					d = t.A[0]
				}
			}
			if d == nil {
				continue
			}
			if r, a := rangeItem(d); r != nil && contained(l.Syms, a) {
				rng, at = r, a
			}
		}
	}
	for _, b := range l.Backs {
		find(since(b.Path.St, l.Ev))
	}
	if rng == nil {
		return
	}
	c.Counts["extent loops"]++
	where, pos := loopWhere(l), c.loopPos(l)
	for _, m := range append([]map[*ai.Term]*ai.Term{l.Init}, l.MoreInit...) {
		c.Ob(ai.Subst(at, m) == ai.I64(0), "every", where, pos, "the first extent may be passed over")
	}
	end := ai.App("rngcount", 64, rng)
	for _, e := range l.Exits {
		if !infeasible(e) && !somethingFailed(e, at) {
			c.Ob(notHolds(e, ai.Lt(true, at, end)), "every", where, pos, "the loop may be left before the last extent")
		}
	}
	for _, o := range l.Outs {
		if infeasible(o.St) || o.Kind != "return" || tells(o.St, l.Fn, o.Ret) {
			continue
		}
		c.Ob(notHolds(o.St, ai.Lt(true, at, end)), "every", where, pos, "the function may succeed before the last extent")
	}
	item := ai.App(itemData, 0, ai.App("rngitem", 0, rng, at))
	for _, b := range l.Backs {
		st := b.Path.St
		if infeasible(st) {
			continue
		}
		c.Ob(same(st, ai.Subst(at, b.Next), ai.AddK(at, 1)), "every", where, pos, "the next extent is not the one that follows")
		done := false
		for _, e := range since(st, l.Ev) {
			done = done || k.good[e] && k.atEnd(st, e) || isWriteAt(e) && k.reads[e] == nil
		}
		if !done {
			done = k.empty(st, item, rng, at)
		}
		c.Ob(done, "every", where, pos, "an extent with content may be passed over")
	}
}

// somethingFailed reports whether an error came up since the loop was entered, or the
// address of the extent at a position is not mapped. What becomes of it is
// decided by C26.
func somethingFailed(st *ai.State, at *ai.Term) bool {
	r := false
	st.Ghosts(cameUp, func(_, v *ai.Term) { r = r || isInt(v, 1) })
	st.Facts.Each(func(f *ai.Term) bool {
		r = r || f.Op == ai.ONot && f.A[0].Op == ai.OApp && f.A[0].S == "physok" && len(apps(f, "rngitem")) > 0 && termContains(f, at)
		return !r
	})
	return r
}

// empty decides that an extent has nothing that is to be copied.
func (k *Copying) empty(st *ai.State, item, rng, at *ai.Term) bool {
	ok := false
	st.Facts.Each(func(f *ai.Term) bool {
		f.Walk(func(s *ai.Term) bool {
			if ok || s.Op != ai.OApp || len(s.A) != 1 || s.A[0] != item || !strings.Contains(s.S, extentField) {
				return !ok
			}
			switch {
			case strings.HasSuffix(s.S, "DiskByteNr"), strings.HasSuffix(s.S, "NumBytes"):
				ok = holds(st, ai.Eq(s, ai.Int(s.W, 0)))
			case strings.HasSuffix(s.S, extentField+"Type"):
				ok = notHolds(st, ai.Eq(s, ai.Int(s.W, 1))) && notHolds(st, ai.Eq(s, ai.Int(s.W, 0)))
			case strings.HasSuffix(s.S, extentField+"Data"):
				ok = holds(st, ai.Le(true, ai.StrLen(s), ai.I64(0)))
			}
			return !ok
		})
		if !ok {
			for _, sz := range apps(f, sizeField) {
				ok = ok || holds(st, ai.Le(false, sz, ai.App("rngoff", 64, rng, at)))
			}
		}
		return !ok
	})
	return ok
}
