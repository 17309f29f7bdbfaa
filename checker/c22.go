package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	checks["C22"] = checkC22
	checks["C10"] = checkC10
}

const superOffset = 64 << 10

func isRead(e *ai.Event) bool {
	return e.Kind == "call" && (e.Name == "ReadAt" || strings.HasSuffix(e.Name, ").ReadAt"))
}

func isPrint(e *ai.Event) bool { return e.Kind == "call" && strings.HasPrefix(e.Name, "fmt.Fprint") }

// toStderr reports whether a print event goes to standard error.
func toStderr(e *ai.Event) bool {
	return isPrint(e) && len(e.Args) > 0 && strings.Contains(e.Args[0].String(), "os.Stderr")
}

// prints reports whether a print event shows a value.
func prints(st *ai.State, e *ai.Event, v *ai.Term) bool {
	for _, a := range e.Args {
		if termContains(a, v) {
			return true
		}
		if a.Op == ai.OSlice && a.A[2].IsConst() {
			n := a.A[2].SVal()
			for i := int64(0); i < n && i < 16; i++ {
				s := st
				if e.St != nil {
					s = e.St
				}
				if termContains(s.ReadElem(a.A[0], ai.AddK(a.A[1], i), anyType), v) {
					return true
				}
			}
		}
	}
	return false
}

// readParts gives buffer, offset, count and error of a read event.
func readParts(e *ai.Event) (buf, off, n, err *ai.Term) {
	buf, off = e.Args[1], e.Args[2]
	if e.Res != nil && e.Res.Op == ai.OTuple {
		n, err = e.Res.A[0], e.Res.A[1]
	}
	return
}

// deviceSize is the size of the device as determined on a path.
func deviceSize(st *ai.State) *ai.Term {
	for e := st.Trace; e != nil; e = e.Prev {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "Seek") && e.Res != nil && e.Res.Op == ai.OTuple && same(st, e.Res.A[1], ai.Nil) {
			return e.Res.A[0]
		}
		if e.Kind == "size" {
			return e.Res
		}
	}
	return nil
}

// traceHas reports whether an event is on a path.
func traceHas(st *ai.State, ev *ai.Event) bool {
	for e := st.Trace; e != nil; e = e.Prev {
		if e == ev {
			return true
		}
	}
	return false
}

// blockLoops are the loops of a recon run whose iterations read blocks.
func (r *Recon) blockLoops() []*ai.LoopRun {
	var ls []*ai.LoopRun
	for _, l := range r.loops {
		for _, b := range l.Backs {
			has := false
			for _, e := range since(b.Path.St, l.Ev) {
				if isRead(e) {
					has = true
				}
			}
			if has {
				ls = append(ls, l)
				break
			}
		}
	}
	return ls
}

func loopWhere(l *ai.LoopRun) string { return fnShort(l.Fn) + " loop" }

func (c *Check) loopPos(l *ai.LoopRun) string {
	for _, i := range l.Header.Instrs {
		if i.Pos().IsValid() {
			return c.pos(i.Pos())
		}
	}
	return c.pos(l.Fn.Pos())
}

func checkC22(c *Check) {
	c.Rules = map[string]string{
		"start":      "the first block read is the one right after the first super block",
		"step":       "each iteration reads the next block",
		"whole":      "one iteration reads exactly one block, of the configured size, that lies completely on the device",
		"end":        "the scan ends only when no complete block is left",
		"bad":        "a block that cannot be read is reported on standard error and the scan goes on",
		"kept":       "what was collected before is committed by closing the index",
		"blocksizes": "recon accepts exactly the block sizes the analysis covers",
	}
	c.blockSizeRule()
	for _, bs := range blockSizes {
		r := c.recon(bs)
		if r == nil {
			return
		}
		ls := r.blockLoops()
		if len(ls) == 0 {
			c.Ob(false, "whole", r.name, "", "no loop reads blocks")
			continue
		}
		K := ai.I64(bs)
		for _, l := range ls {
			where, pos := loopWhere(l), c.loopPos(l)
			var t0 *ai.Term
			for _, b := range l.Backs {
				st := b.Path.St
				size := deviceSize(st)
				var reads []*ai.Event
				for _, e := range since(st, l.Ev) {
					if isRead(e) {
						reads = append(reads, e)
					}
				}
				if !c.Ob(len(reads) == 1, "whole", where+" reads per iteration", pos, "an iteration makes %d reads", len(reads)) {
					continue
				}
				e := reads[0]
				buf, off, n, err := readParts(e)
				ep := c.pos(e.Instr.Pos())
				c.Ob(buf.Op == ai.OSlice && same(st, buf.A[2], K), "whole", where+" size", ep, "reads %v bytes, not %d", buf, bs)
				sx := r.stride(st, off, bs)
				c.Ob(size != nil && holds(sx, ai.Le(false, ai.Add(off, K), size)), "whole", where+" on the device", ep, "the block at %v may not lie completely on the device of size %v", off, size)
				if t0 == nil {
					t0 = off
					i := ai.Subst(off, l.Init)
					c.Ob(same(l.Entry, i, ai.I64(superOffset+bs)), "start", where, ep, "the scan starts at %v with blocks of %d bytes", i, bs)
				}
				c.Ob(same(st, off, t0), "whole", where+" offset", ep, "blocks are read at %v or %v", off, t0)
				nx := ai.Subst(t0, b.Next)
				c.Ob(same(st, nx, ai.Add(t0, K)), "step", where, ep, "after %v the next block is read at %v", t0, nx)
				if n == nil || !same(st, n, K) {
					reported := false
					for _, q := range since(st, e) {
						if toStderr(q) && prints(st, q, err) {
							reported = true
						}
					}
					c.Ob(reported, "bad", where+" report", ep, "a block that cannot be read is skipped without a message with the error")
				}
			}
			if t0 == nil {
				continue
			}
			n := 0
			for _, o := range r.outs {
				if !traceHas(o.St, l.Ev) {
					continue
				}
				st := o.St
				es := since(st, l.Ev)
				var rd *ai.Event
				for _, e := range es {
					if isRead(e) {
						rd = e
					}
				}
				if rd != nil {
					_, _, cnt, _ := readParts(rd)
					c.Ob(o.Kind != "return", "end", where, c.pos(rd.Instr.Pos()), "the scan can end after a block although others are left")
					c.Ob(cnt != nil && same(st, cnt, K), "bad", where+" continues", c.pos(rd.Instr.Pos()), "a block that cannot be read ends the scan")
					continue
				}
				n++
				size := deviceSize(st)
				sx := r.stride(st, t0, bs)
				c.Ob(size != nil && holds(sx, ai.Lt(false, size, ai.Add(t0, K))), "end", where, pos, "the scan can end at %v although a complete block is left on the device of size %v", t0, size)
				closed := len(named(es, "Index).Close")) == 1
				c.Ob(closed, "kept", where, pos, "the index is not closed after the scan")
			}
			c.Ob(n > 0, "end", where+" ends", pos, "the scan never ends")
		}
		// every run that opens the device and index without error scans
		for _, o := range r.outs {
			if o.Kind != "return" {
				continue
			}
			scanned := false
			for _, l := range ls {
				if traceHas(o.St, l.Ev) {
					scanned = true
				}
			}
			c.Ob(scanned, "end", r.name+" scans", "", "recon can succeed without scanning the device")
		}
	}
}

// blockSizeRule decides which block sizes pass the check of the device.
func (c *Check) blockSizeRule() {
	f := c.Need("pkg/btrfs:CheckDeviceSize")
	if f == nil {
		return
	}
	pos := c.pos(f.Pos())
	_, args, outs := c.run(f, nil, nil)
	if len(args) != 2 {
		c.Fail(fnShort(f), "unexpected parameters")
		return
	}
	bs := args[1]
	ok := map[int64]bool{}
	for _, o := range outs {
		if o.Kind != "return" {
			continue
		}
		if !same(o.St, o.Ret.A[1], ai.Nil) {
			continue
		}
		st := o.St
		in := holds(st, ai.Le(false, ai.I64(blockSizes[0]), bs)) && holds(st, ai.Le(false, bs, ai.I64(blockSizes[len(blockSizes)-1]))) &&
			same(st, ai.And(bs, ai.AddK(bs, -1)), ai.I64(0))
		if !in {
			// the sizes accepted may also be told apart one by one
			for _, k := range blockSizes {
				if same(st, bs, ai.I64(k)) {
					in = true
				}
			}
		}
		c.Ob(in, "blocksizes", fnShort(f), pos, "accepts a block size that is no power of two between 4K and 64K")
		for _, k := range blockSizes {
			if !notHolds(st, ai.Eq(bs, ai.I64(k))) {
				ok[k] = true
			}
		}
	}
	for _, k := range blockSizes {
		c.Ob(ok[k], "blocksizes", fmt.Sprintf("%s %d", fnShort(f), k), pos, "refuses block size %d", k)
	}
}

func checkC10(c *Check) {
	c.Rules = map[string]string{
		"skip":   "a block is passed over only if its file-system id differs, it has no items or it is not a leaf",
		"accept": "items are stored only from leaves of the requested file system",
		"each":   "the items of a leaf are stored one by one from the first to the last, each exactly once",
		"item":   "key, header, item header and data handed to the index are those of the item",
		"store":  "the stored value is the item header followed by the data, under the item's key with owner and generation of the header",
	}
	c.insertUnit()
	for _, bs := range blockSizes {
		r := c.recon(bs)
		if r == nil {
			return
		}
		ls := r.blockLoops()
		c.Ob(len(ls) > 0, "each", r.name, "", "no loop reads blocks")
		for _, l := range ls {
			where, pos := loopWhere(l), c.loopPos(l)
			for _, b := range l.Backs {
				st := b.Path.St
				var rd *ai.Event
				var loopEv *ai.Event
				direct := 0
				for _, e := range since(st, l.Ev) {
					switch {
					case isRead(e):
						rd = e
					case e.Kind == "loop":
						for _, m := range r.loops {
							if m.Ev == e && r.inserts(m) {
								loopEv = e
							}
						}
					case evIs(e, "Index).InsertItem"):
						direct++
					}
				}
				if rd == nil {
					continue
				}
				buf, _, n, _ := readParts(rd)
				if n == nil || !same(st, n, ai.I64(bs)) || buf.Op != ai.OSlice {
					continue
				}
				c.Ob(direct == 0, "each", where+" outside the item loop", pos, "items are stored outside of a loop over the items")
				fits := func(s *ai.State) (bool, string) {
					for i := int64(0); i < 16; i++ {
						w := r.idByte(s, i)
						if w == nil {
							return true, "the requested id is not found"
						}
						if !assume(r.x, s, ai.Eq(s.ReadInt(buf.A[0], ai.AddK(buf.A[1], 32+i), 1, "LE"), w)) {
							return false, ""
						}
					}
					if !assume(r.x, s, ai.Eq(s.ReadInt(buf.A[0], ai.AddK(buf.A[1], 100), 1, "LE"), ai.Int(8, 0))) {
						return false, ""
					}
					nr := s.ReadInt(buf.A[0], ai.AddK(buf.A[1], 96), 4, "LE")
					if !assume(r.x, s, ai.Not(ai.Eq(nr, ai.Int(32, 0)))) {
						return false, ""
					}
					return true, "a leaf of the requested file system with items can be passed over"
				}
				if loopEv == nil {
					s := st.Clone()
					ok, why := fits(s)
					if ok && os.Getenv("F") != "" {
						dumpState(s)
					}
					c.Ob(!ok, "skip", where, pos, "%s", why)
				}
			}
		}
		for _, l := range r.loops {
			if r.inserts(l) {
				c.itemLoop(r, l)
			}
		}
	}
}

// inserts reports whether the iterations of a loop themselves store items.
func (r *Recon) inserts(l *ai.LoopRun) bool {
	for _, b := range l.Backs {
		es := since(b.Path.St, l.Ev)
		for i := len(es) - 1; i >= 0; i-- {
			if evIs(es[i], "Index).InsertItem") {
				in := true
				for _, q := range es[:i] {
					if q.Kind == "loop" && r.innerInsert(q) {
						in = false
					}
				}
				if in {
					return true
				}
			}
		}
	}
	return false
}

func (r *Recon) innerInsert(e *ai.Event) bool {
	for _, l := range r.loops {
		if l.Ev == e {
			for _, b := range l.Backs {
				if len(named(since(b.Path.St, l.Ev), "Index).InsertItem")) > 0 {
					return true
				}
			}
		}
	}
	return false
}

// idByte is byte i of the requested file-system id.
func (r *Recon) idByte(st *ai.State, i int64) *ai.Term {
	if r.id == nil {
		return nil
	}
	return st.ReadElem(r.id, ai.I64(i), byteType)
}

func (c *Check) itemLoop(r *Recon, l *ai.LoopRun) {
	where, pos := loopWhere(l)+" over items", c.loopPos(l)
	var rd *ai.Event
	for e := l.Head.Trace; e != nil; e = e.Prev {
		if isRead(e) {
			rd = e
			break
		}
	}
	if rd == nil {
		c.Ob(false, "item", where, pos, "items are stored although no block was read")
		return
	}
	buf := rd.Args[1]
	B := func(st *ai.State, off *ai.Term, n int) *ai.Term {
		return st.ReadInt(buf.A[0], ai.Add(buf.A[1], off), n, "LE")
	}
	_, _, n, _ := readParts(rd)
	c.Ob(n != nil && same(l.Head, n, ai.I64(r.bs)), "accept", where+" read", pos, "items are stored from a block that was not read completely")
	level := B(l.Head, ai.I64(100), 1)
	c.Ob(same(l.Head, level, ai.Int(8, 0)), "accept", where+" leaf", pos, "items are stored from blocks that are no leaves")
	for i := int64(0); i < 16; i++ {
		w := r.idByte(l.Head, i)
		c.Ob(w != nil && same(l.Head, B(l.Head, ai.I64(32+i), 1), w), "accept", where+" id", pos, "items are stored from blocks of other file systems (byte %d of the id)", i)
	}
	var t0 *ai.Term
	for _, b := range l.Backs {
		st := b.Path.St
		ins := named(since(st, l.Ev), "Index).InsertItem")
		if !c.Ob(len(ins) == 1, "each", where+" once", pos, "an iteration stores %d items", len(ins)) {
			continue
		}
		c.insertArgs(r, st, ins[0], buf, where)
		item := ins[0].Args[3]
		if item.Op != ai.OSlice {
			continue
		}
		t := ai.Sub(item.A[1], buf.A[1])
		if t0 == nil {
			t0 = t
			i := ai.Subst(t, l.Init)
			c.Ob(same(l.Entry, i, ai.I64(101)), "each", where+" first", pos, "the first item stored is the one at %v", i)
		}
		c.Ob(same(st, t, t0), "each", where+" same", pos, "items at %v or %v are stored", t, t0)
		nx := ai.Subst(t0, b.Next)
		c.Ob(same(st, nx, ai.AddK(t0, 25)), "each", where+" next", pos, "after the item at %v follows the one at %v", t0, nx)
	}
	if t0 == nil {
		return
	}
	// ways on from the loop
	ends := 0
	check := func(st *ai.State, kind string) {
		if !traceHas(st, l.Ev) {
			return
		}
		es := since(st, l.Ev)
		ins := named(es, "Index).InsertItem")
		if len(ins) > 0 {
			c.insertArgs(r, st, ins[0], buf, where)
			failed := false
			for _, e := range ins {
				failed = failed || opFailed(st, e.Res)
			}
			c.Ob(kind == "exit" && failed, "each", where+" last", pos, "storing items can stop although no insertion failed")
			return
		}
		ends++
		nr := ai.ZExt(64, B(st, ai.I64(96), 4))
		// all items done, or no room for another one
		s := st.Clone()
		bad := assume(r.x, s, ai.Lt(true, t0, ai.Add(ai.I64(101), ai.Mul(nr, ai.I64(25))))) && assume(r.x, s, ai.Le(true, ai.AddK(t0, 25), ai.I64(r.bs)))
		if bad && os.Getenv("F") != "" {
			dumpState(s)
		}
		c.Ob(!bad, "each", where+" all", pos, "storing items can end before the last item, at offset %v", t0)
	}
	for _, o := range r.outs {
		check(o.St, o.Kind)
	}
	for _, q := range r.loops {
		if q != l {
			for _, b := range q.Backs {
				check(b.Path.St, "back")
			}
		}
	}
	c.Ob(ends > 0, "each", where+" ends", pos, "the loop over the items never ends")
}

// insertArgs checks the arguments of an insertion of the item.
func (c *Check) insertArgs(r *Recon, st *ai.State, e *ai.Event, buf *ai.Term, where string) {
	pos := c.pos(e.Instr.Pos())
	k, h, item, data := e.Args[1], e.Args[2], e.Args[3], e.Args[4]
	s := st
	if e.St != nil {
		s = e.St
	}
	in := func(v *ai.Term) bool { return v.Op == ai.OSlice && same(s, v.A[0], buf.A[0]) }
	c.Ob(in(h) && same(s, h.A[1], buf.A[1]) && holds(s, ai.Le(true, ai.I64(101), h.A[2])), "item", where+" header", pos, "the header handed over is %v", h)
	if !c.Ob(in(item) && same(s, item.A[2], ai.I64(25)), "item", where+" item", pos, "the item header handed over is %v", item) {
		return
	}
	rd := func(off *ai.Term, n int) *ai.Term { return s.ReadInt(buf.A[0], off, n, "LE") }
	o := item.A[1]
	if c.Ob(k.Op == ai.OStruct && len(k.A) == 3, "item", where+" key", pos, "the key is %v", k) {
		want := map[string]*ai.Term{"ObjectID": rd(o, 8), "Type": rd(ai.AddK(o, 8), 1), "Offset": rd(ai.AddK(o, 9), 8)}
		for n, w := range want {
			i, _ := fieldNamed(argType(e, 1), n)
			c.Ob(i >= 0 && same(s, k.A[i], w), "item", where+" key "+n, pos, "%s of the key handed over is not that of the item", n)
		}
	}
	if !c.Ob(in(data), "item", where+" data", pos, "the data handed over is %v", data) {
		return
	}
	off := ai.AddK(ai.ZExt(64, rd(ai.AddK(o, 17), 4)), 101)
	size := ai.ZExt(64, rd(ai.AddK(o, 21), 4))
	end := ai.Add(off, size)
	do := ai.Sub(data.A[1], buf.A[1])
	K := ai.I64(r.bs)
	for _, cs := range []struct {
		name       string
		ls         []*ai.Term
		wOff, wLen *ai.Term
	}{
		{"inside the block", []*ai.Term{ai.Le(false, end, K)}, off, size},
		{"reaching beyond the block", []*ai.Term{ai.Le(false, off, K), ai.Lt(false, K, end)}, off, ai.Sub(K, off)},
		{"outside of the block", []*ai.Term{ai.Lt(false, K, off)}, nil, ai.I64(0)},
	} {
		q := s.Clone()
		if !assume(r.x, q, cs.ls...) {
			continue
		}
		c.Ob(same(q, data.A[2], cs.wLen), "item", where+" data length, "+cs.name, pos, "%v bytes of data are handed over instead of %v", data.A[2], cs.wLen)
		if cs.wOff != nil {
			c.Ob(same(q, do, cs.wOff) || same(q, data.A[2], ai.I64(0)), "item", where+" data offset, "+cs.name, pos, "data is taken from %v instead of %v", do, cs.wOff)
		}
	}
}

// insertUnit checks what InsertItem stores.
func (c *Check) insertUnit() {
	f := c.Need(indexPkg + ":Index.InsertItem")
	if f == nil {
		return
	}
	where, pos := fnShort(f), c.pos(f.Pos())
	n := 0
	c.indexRun(f, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
		x.Assume(st, ai.Eq(a[3].A[2], ai.I64(25)))
		x.Assume(st, ai.Le(true, ai.I64(101), a[2].A[2]))
	}, func(x *ai.Exec, a []*ai.Term, outs []ai.Outcome) {
		k, h, item, data := a[1], a[2], a[3], a[4]
		kt := f.Signature.Params().At(0).Type()
		for _, o := range outs {
			st := o.St
			if o.Kind != "return" {
				continue
			}
			puts := 0
			for _, e := range events(st) {
				if !evIs(e, "Bucket).Put") {
					continue
				}
				puts++
				n++
				ep := c.pos(e.Instr.Pos())
				H := func(off int64) *ai.Term { return st.ReadInt(h.A[0], ai.AddK(h.A[1], off), 8, "LE") }
				fi := func(s string) *ai.Term {
					i, _ := fieldNamed(kt, s)
					if i < 0 || k.Op != ai.OStruct {
						return nil
					}
					return k.A[i]
				}
				bad := isIndexKey(st, e.Args[1], []*ai.Term{H(88), fi("Type"), fi("ObjectID"), fi("Offset"), H(80)})
				c.Ob(bad == "", "store", where+" key", ep, "stored under a key with wrong %s", bad)
				v := e.Args[2]
				if !c.Ob(v.Op == ai.OSlice && same(st, v.A[2], ai.AddK(data.A[2], 25)), "store", where+" length", ep, "the stored value has length %v", v) {
					continue
				}
				for _, part := range []struct {
					name string
					src  *ai.Term
					at   int64
				}{{"item header", item, 0}, {"data", data, 25}} {
					j := x.Fresh("j", intType)
					s := st.Clone()
					if !assume(x, s, ai.Le(true, ai.I64(0), j), ai.Lt(true, j, part.src.A[2])) {
						continue // no data
					}
					got := s.ReadElem(v.A[0], ai.Add(v.A[1], ai.AddK(j, part.at)), byteType)
					want := s.ReadElem(part.src.A[0], ai.Add(part.src.A[1], j), byteType)
					c.Ob(same(s, got, want), "store", where+" "+part.name, ep, "byte %v of the %s is stored as %v", j, part.name, got)
				}
			}
			if same(st, o.Ret, ai.Nil) {
				c.Ob(puts == 1, "store", where+" once", pos, "succeeds with %d values stored", puts)
			}
		}
	})
	c.Ob(n > 0, "store", where+" stores", pos, "nothing is stored")
}

var _ ssa.Value

// stride is a state that knows that an offset is a multiple of the block size,
// which follows from the rules on start and step, and that the size of the
// device is a number of blocks and a rest.
func (r *Recon) stride(st *ai.State, off *ai.Term, bs int64) *ai.State {
	s := st.Clone()
	k := r.x.Fresh("blocks", intType)
	r.x.Assume(s, ai.Le(true, ai.I64(0), k))
	r.x.Assume(s, ai.Le(true, k, ai.I64(1<<51/bs)))
	r.x.Assume(s, ai.Eq(off, ai.Add(ai.I64(superOffset+bs), ai.Mul(k, ai.I64(bs)))))
	if size := deviceSize(st); size != nil {
		q := r.x.Fresh("whole", intType)
		rem := ai.RemU(size, ai.I64(bs))
		r.x.Assume(s, ai.Le(true, ai.I64(0), q))
		r.x.Assume(s, ai.Le(true, q, ai.I64(1<<51/bs)))
		r.x.Assume(s, ai.Eq(size, ai.Add(rem, ai.Mul(q, ai.I64(bs)))))
		r.x.Assume(s, ai.Lt(false, rem, ai.I64(bs)))
	}
	return s
}
