package main

import (
	"verif/checker/ai"
)

func init() { checks["C12"] = checkC12 }

// storedKey is the key that a value belongs to.
func storedKey(item *ai.Term) *ai.Term {
	if item == nil || item.Op != ai.OSlice || item.A[1] != ai.I64(0) {
		return nil
	}
	r := ai.Root(item)
	if r == nil || r.Op != ai.OApp || r.S != "dbval" {
		return nil
	}
	return ai.SliceV(r.A[0], ai.I64(0), ai.I64(dbKeyLen), ai.I64(dbKeyLen), ai.Bool(false))
}

// objectOf is the first part of a key: owner, type, id, offset.
func objectOf(owner, key *ai.Term) []*ai.Term {
	k := keyTerm(key)
	if k == nil {
		return nil
	}
	return append([]*ai.Term{owner}, k...)
}

func version(obj []*ai.Term, gen *ai.Term) []*ai.Term {
	return append(append([]*ai.Term{}, obj[:4]...), gen)
}

var (
	genMin = ai.Int(64, 0)
	genMax = ai.Int(64, ^uint64(0))
)

// chosen reports whether a stored key is known to be the version of its object
// that belongs to a generation: the newest one not above it, or the oldest one.
func (d *DB) chosen(st *ai.State, k []*ai.Term, gen *ai.Term) bool {
	switch {
	case d.cmp(st, k[4], gen) > 0:
		return d.noKeys(st, after(k), after(version(k, gen)))
	case d.cmp(st, gen, k[4]) == 2:
		return d.noKeys(st, before(version(k, genMin)), before(k))
	}
	return false
}

// byGeneration splits a state by how the generation of a key compares.
func (d *DB) byGeneration(st *ai.State, k []*ai.Term, gen *ai.Term) []*ai.State {
	var r []*ai.State
	for _, l := range []*ai.Term{ai.Le(false, k[4], gen), ai.Lt(false, gen, k[4])} {
		s := st.Clone()
		if assume(d.x, s, l) && d.sync(s, version(k, gen)) {
			r = append(r, s)
		}
	}
	return r
}

// indexGeneration is the generation that an index is read at.
func (c *Check) indexGeneration(st *ai.State, ix *ai.Term) *ai.Term {
	i, t := fieldNamed(c.namedType(indexPkg, "Index"), "Generation")
	if i < 0 {
		return nil
	}
	return st.Load(ai.FieldAddr(ix, i), t)
}

// objectPresent reports in which way the result of a lookup is right.
func (c *Check) lookedUp(d *DB, st *ai.State, item *ai.Term, obj []*ai.Term, gen *ai.Term, where, pos string) {
	if item == ai.NilSlice || item.Op == ai.OSlice && item.A[4].True() {
		c.Ob(d.noKeys(st, before(version(obj, genMin)), after(version(obj, genMax))), "found", where, pos,
			"nothing is returned although a version of the object may be stored")
		return
	}
	k := comps(st, storedKey(item))
	if !c.Ob(k != nil, "stored", where, pos, "the value returned is not one that is stored in the database") {
		return
	}
	same := d.common(st, k, obj[:4]) == 4
	if !c.Ob(same, "object", where, pos, "the value returned may belong to another owner or key") {
		return
	}
	for _, s := range d.byGeneration(st, k, gen) {
		c.Ob(d.chosen(s, k, gen), "generation", where, pos,
			"the value returned may not be the newest version allowed by the generation of the index, or the oldest one")
	}
}

func checkC12(c *Check) {
	c.Rules = map[string]string{
		"found":      "nothing is returned only if no key with the owner and key looked up is stored",
		"stored":     "what is returned is a value stored in the database",
		"object":     "the value returned is stored under exactly the owner and key looked up",
		"generation": "its generation is the highest one not above the generation of the index or, failing that, the lowest one",
		"typed":      "a lookup of one kind of item asks for that kind of key and returns the data of what was found, or nothing",
	}
	c.Assume = append(c.Assume, "keys in the database are 33 bytes and values at least 25 bytes long, as recon writes them",
		"tree ids are below 2^64-1, the id reserved for the header record of the database")
	f := c.Need(indexPkg + ":Index.FindItem")
	if f == nil {
		return
	}
	var gen *ai.Term
	r := c.dbRun(f, func(r *dbRun, st *ai.State) {
		r.x.Assume(st, ai.Lt(false, r.args[1], genMax))
		gen = c.indexGeneration(st, r.args[0])
	})
	if r == nil {
		return
	}
	obj := objectOf(r.args[1], r.args[2])
	if obj == nil || gen == nil {
		c.Fail(fnShort(f), "unexpected signature, or the index has no generation")
		return
	}
	n := 0
	for _, o := range r.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		n++
		c.lookedUp(r.d, o.St, o.Ret, obj, gen, fnShort(f), c.pos(f.Pos()))
	}
	c.Ob(n >= 3, "found", fnShort(f), c.pos(f.Pos()), "fewer ways for a lookup to end than its specification has")
	c.typedLookups()
}

// typedLookups checks the lookups of one kind of item.
func (c *Check) typedLookups() {
	type spec struct {
		name string
		key  func(args []*ai.Term) []*ai.Term // owner, type, id, offset
		typ  uint64
	}
	own := func(t uint64) func(a []*ai.Term) []*ai.Term {
		return func(a []*ai.Term) []*ai.Term {
			return []*ai.Term{a[1], ai.Int(8, t), a[2], ai.Int(64, 0)}
		}
	}
	for _, s := range []spec{
		{"FindInodeItem", own(1), 1},
		{"FindFileExtentItem", own(108), 108},
		{"FindExtentItem", func(a []*ai.Term) []*ai.Term {
			return []*ai.Term{ai.Int(64, 2), ai.Int(8, 168), a[1], a[2]}
		}, 168},
	} {
		f := c.Need(indexPkg + ":Index." + s.name)
		if f == nil {
			continue
		}
		x, st := c.W.Exec()
		x.Anchor = both(anchors(c.readAPI()), c.accessors())
		args := x.Params(f)
		x.Assume(st, ai.Not(ai.Eq(args[0], ai.Nil)))
		outs := x.Run(f, args, st)
		c.Errs(x, fnShort(f))
		c.Counts["paths"] += len(outs)
		c.saw(f)
		where, pos := fnShort(f), c.pos(f.Pos())
		full := 0
		for _, o := range outs {
			if o.Kind != "return" || infeasible(o.St) {
				continue
			}
			want := s.key(args)
			it := ai.App("item", 0, append([]*ai.Term{args[0]}, want...)...)
			found := x.SliceOf(it)
			data := c.dataOf(x, o.St, found)
			got := o.Ret
			if got.Op == ai.OSlice && got.A[4].True() {
				// nothing: the item is missing or too short
				ok := true
				for _, w := range c.goodData(x, o.St, s.typ, data) {
					q := o.St.Clone()
					if assume(x, q, append([]*ai.Term{ai.Not(found.A[4])}, w...)...) {
						ok = false
					}
				}
				c.Ob(ok, "typed", where, pos, "nothing is returned although the item is there")
				continue
			}
			full++
			ok := got.Op == ai.OSlice && got.A[0] == data.A[0] && same(o.St, got.A[1], data.A[1]) && same(o.St, got.A[2], data.A[2])
			c.Ob(ok, "typed", where, pos, "what is returned is not the data of the item with the key of its kind: %s", got)
		}
		c.Ob(full > 0, "typed", where, pos, "nothing is ever returned")
	}
}

// goodData lists the ways in which the data of an item is complete.
func (c *Check) goodData(x *ai.Exec, st *ai.State, t uint64, data *ai.Term) [][]*ai.Term {
	n := ai.Le(true, ai.I64(wellFormedLen[t]), data.A[2])
	if t != 108 {
		return [][]*ai.Term{{n}}
	}
	tp := ai.App("pkg/btrfs.FileExtentItem.Type", 8, ai.Root(data))
	return [][]*ai.Term{{ai.Le(true, ai.I64(53), data.A[2])}, {n, ai.Eq(tp, ai.Int(8, 0))}}
}
