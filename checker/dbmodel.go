package main

import (
	"fmt"
	"go/types"

	"verif/checker/ai"
)

// A model of the ordered key-value store under the index. The database is a
// fixed set of keys of 33 bytes, each with one value. A key has components, its
// bytes read most significant first; keys are ordered by them lexicographically,
// which is the same as by their bytes. The order of keys is kept as the order of
// numbers: rank(k) for a key and rank4(k) for all but its last component. The
// finitely many keys that a path speaks of can be numbered like that.
//
// What a path has learnt about the set is kept with the state: keys known to be
// stored, and gaps, i.e. stretches between two positions that hold no key. A
// position is just before or just after a key.

const (
	dbKeyLen   = 33
	dbMinValue = 25
)

var dbParts = []struct{ off, n int64 }{{0, 8}, {8, 1}, {9, 8}, {17, 8}, {25, 8}}

// dbToken is what the facts about the database are attached to.
var dbToken = ai.App("nn:database", 0)

// DB is the model in an interpreter.
type DB struct {
	x        *ai.Exec
	sentinel []*ai.Term // components of the key that is always stored
	sentKey  *ai.Term
	n        int
}

// comps reads the components of a key; nil if the slice is not a whole key.
func comps(st *ai.State, s *ai.Term) []*ai.Term { return compsN(st, s, dbKeyLen) }

// compsN reads the components of the first n bytes of a key.
func compsN(st *ai.State, s *ai.Term, n int64) []*ai.Term {
	if s == nil || s.Op != ai.OSlice || s.A[2] != ai.I64(n) {
		return nil
	}
	var r []*ai.Term
	for _, p := range dbParts {
		if p.off == n {
			return r
		}
		o := ai.AddK(s.A[1], p.off)
		if p.n == 1 {
			r = append(r, st.ReadElem(s.A[0], o, types.Typ[types.Uint8]))
		} else {
			r = append(r, st.ReadInt(s.A[0], o, int(p.n), "BE"))
		}
	}
	if n != dbKeyLen {
		return nil
	}
	return r
}

// Pos is a position in the database.
type Pos struct {
	k     []*ai.Term
	after bool
}

func before(k []*ai.Term) Pos { return Pos{k, false} }
func after(k []*ai.Term) Pos  { return Pos{k, true} }

func allOf(v uint64) []*ai.Term {
	return []*ai.Term{ai.Int(64, v), ai.Int(8, v&255), ai.Int(64, v), ai.Int(64, v), ai.Int(64, v)}
}

var (
	dbStart = before(allOf(0))
	dbEnd   = after(allOf(^uint64(0)))
)

func rank(k []*ai.Term) *ai.Term  { return ai.App("rank", 64, k...) }
func rank4(k []*ai.Term) *ai.Term { return ai.App("rank4", 64, k[:4]...) }

func isGen(t *ai.Term, v uint64) bool { return t.Op == ai.OInt && t.K == v }

// lexLE reports whether a <= b is known (a < b if strict). Shorter keys are
// compared as far as they go.
func (d *DB) lexLE(st *ai.State, a, b []*ai.Term, strict bool) bool {
	x, y := a, b
	if len(a) == 4 && len(b) == 4 {
		x, y = version(a, genMin), version(b, genMin)
	}
	if len(x) == 5 && len(y) == 5 {
		d.sync(st, x, y)
		o := d.order(st)
		r := o.is(rank(x), rank(y))
		if len(a) == 4 {
			r = o.is(rank4(x), rank4(y))
		}
		if r == 2 || r == 1 && !strict {
			return true
		}
	}
	return d.byParts(st, a, b, strict)
}

// byParts is lexLE from what is known of the components alone.
func (d *DB) byParts(st *ai.State, a, b []*ai.Term, strict bool) bool {
	for i := range a {
		x, y := a[i], b[i]
		if d.eq(st, x, y) {
			continue
		}
		switch d.cmp(st, x, y) {
		case 2:
			return true
		case 0:
			return false
		}
	}
	return !strict
}

func (d *DB) eq(st *ai.State, x, y *ai.Term) bool {
	return x == y || d.order(st).isEq(x, y) || sums(x, y) && holds(st, ai.Eq(x, y))
}

// cmp tells what is known: 2 x < y, 1 x <= y, 0 nothing.
func (d *DB) cmp(st *ai.State, x, y *ai.Term) int8 {
	r := d.order(st).is(x, y)
	if r == 0 && sums(x, y) {
		if holds(st, ai.Lt(false, x, y)) {
			return 2
		}
		if holds(st, ai.Le(false, x, y)) {
			return 1
		}
	}
	return r
}

// sums reports whether the order alone may not know how two numbers compare.
func sums(x, y *ai.Term) bool { return x.Op == ai.OLin || y.Op == ai.OLin }

// common is how many leading components of two keys are known to be equal.
func (d *DB) common(st *ai.State, a, b []*ai.Term) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if !d.eq(st, a[i], b[i]) {
			return i
		}
	}
	return n
}

// assume adds a <= b (a < b if strict) to a state.
func (d *DB) assume(st *ai.State, a, b []*ai.Term, strict bool) bool {
	n := d.common(st, a, b)
	o := d.order(st).clone()
	if strict {
		o.lt(rank(a), rank(b))
	} else {
		o.le(rank(a), rank(b))
	}
	if strict && (isGen(a[4], ^uint64(0)) || isGen(b[4], 0)) {
		o.lt(rank4(a), rank4(b))
	} else {
		o.le(rank4(a), rank4(b))
	}
	o.le(a[0], b[0])
	if n < 5 {
		if n == 4 && strict {
			o.lt(a[n], b[n])
		} else {
			o.le(a[n], b[n])
		}
	} else if strict {
		return false
	}
	d.learned(st, o)
	return !o.bad
}

// assumeSame makes the first components of two keys equal.
func (d *DB) assumeSame(st *ai.State, a, b []*ai.Term) bool {
	for i := range a {
		if a[i] != b[i] {
			if notHolds(st, ai.Eq(a[i], b[i])) {
				return false
			}
			d.x.Assume(st, ai.Eq(a[i], b[i]))
		}
	}
	return !d.order(st).bad
}

// sync brings what is known of the ranks of the keys that a path speaks of in
// line with what is known of their components. It reports whether that is
// possible.
func (d *DB) sync(st *ai.State, more ...[]*ai.Term) bool {
	var ks [][]*ai.Term
	seen := map[*ai.Term]bool{}
	add := func(k []*ai.Term) {
		if len(k) == 5 && !seen[rank(k)] {
			seen[rank(k)] = true
			ks = append(ks, k)
		}
	}
	for _, k := range d.keys(st) {
		add(comps(st, k))
	}
	for _, g := range dbGaps(st) {
		add(g.a.k)
		add(g.b.k)
	}
	for _, k := range more {
		add(k)
	}
	o := d.order(st).clone()
	was := len(o.terms)
	changed := false
	lt := func(a, b *ai.Term) {
		if o.is(a, b) < 2 {
			o.lt(a, b)
			changed = true
		}
	}
	le := func(a, b *ai.Term) {
		if o.is(a, b) < 1 {
			o.le(a, b)
			changed = true
		}
	}
	for round := 0; round < 3; round++ {
		before := changed
		changed = false
		for i, a := range ks {
			for _, b := range ks[i+1:] {
				n := 0
				for n < 5 && (o.isEq(a[n], b[n]) || sums(a[n], b[n]) && holds(st, ai.Eq(a[n], b[n]))) {
					n++
				}
				if n >= 4 {
					le(rank4(a), rank4(b))
					le(rank4(b), rank4(a))
				}
				if n == 5 {
					le(rank(a), rank(b))
					le(rank(b), rank(a))
					continue
				}
				for k := 0; k < 2; k++ {
					r := o.is(a[n], b[n])
					if r == 0 && sums(a[n], b[n]) {
						r = d.cmp(st, a[n], b[n])
					}
					switch {
					case n < 4 && r == 2:
						lt(rank4(a), rank4(b))
					case n == 4 && r == 2:
						lt(rank(a), rank(b))
					case n == 4 && r == 1:
						le(rank(a), rank(b))
					}
					switch o.is(rank4(a), rank4(b)) {
					case 2:
						lt(rank(a), rank(b))
					case 1:
						switch o.is(a[4], b[4]) {
						case 2:
							lt(rank(a), rank(b))
						case 1:
							le(rank(a), rank(b))
						}
					}
					switch r := o.is(rank(a), rank(b)); {
					case r == 0:
					case n == 4 && r == 2:
						lt(a[4], b[4])
					case n == 4:
						le(a[4], b[4])
					default:
						if r == 2 && (isGen(a[4], ^uint64(0)) || isGen(b[4], 0)) {
							lt(rank4(a), rank4(b))
						} else {
							le(rank4(a), rank4(b))
						}
						le(a[n], b[n])
					}
					a, b = b, a
				}
			}
		}
		if !changed {
			changed = before
			break
		}
	}
	if changed || len(o.terms) != was {
		d.learned(st, o)
	}
	return !o.bad
}

// le reports whether position p is known to be at or before q.
func (d *DB) le(st *ai.State, p, q Pos) bool {
	return d.lexLE(st, p.k, q.k, p.after && !q.after)
}

// Gap is a stretch without keys; lo and hi are the keys at its ends if any.
type Gap struct {
	a, b   Pos
	lo, hi *ai.Term
}

func (g *Gap) term() *ai.Term {
	t := append(append([]*ai.Term{}, g.a.k...), ai.Bool(g.a.after))
	t = append(append(t, g.b.k...), ai.Bool(g.b.after))
	for _, k := range []*ai.Term{g.lo, g.hi} {
		if k == nil {
			k = ai.Nil
		}
		t = append(t, k)
	}
	return ai.Struct(t...)
}

func gapOf(t *ai.Term) *Gap {
	if t == nil || t.Op != ai.OStruct || len(t.A) != 14 || !t.A[5].IsConst() || !t.A[11].IsConst() {
		return nil
	}
	g := &Gap{a: Pos{t.A[:5], t.A[5].True()}, b: Pos{t.A[6:11], t.A[11].True()}}
	if t.A[12].Op == ai.OSlice {
		g.lo = t.A[12]
	}
	if t.A[13].Op == ai.OSlice {
		g.hi = t.A[13]
	}
	return g
}

const dbMax = 24

func dbGaps(st *ai.State) []*Gap {
	var r []*Gap
	for i := 0; i < dbMax; i++ {
		if g := gapOf(st.Ghost(dbToken, fmt.Sprint("gap", i))); g != nil {
			r = append(r, g)
		}
	}
	return r
}

func dbAdd(st *ai.State, kind string, t *ai.Term) {
	for i := 0; i < dbMax; i++ {
		n := fmt.Sprint(kind, i)
		switch st.Ghost(dbToken, n) {
		case t:
			return
		case nil:
			st.SetGhost(dbToken, n, t)
			return
		}
	}
}

func dbGap(st *ai.State, g *Gap) { dbAdd(st, "gap", g.term()) }

// dbKeys lists the keys known to be stored.
func (d *DB) keys(st *ai.State) []*ai.Term {
	var r []*ai.Term
	for i := 0; i < dbMax; i++ {
		if k := st.Ghost(dbToken, fmt.Sprint("key", i)); k != nil && k.Op == ai.OSlice && k.A[2] == ai.I64(dbKeyLen) {
			r = append(r, k)
		}
	}
	return append(r, d.sentKey)
}

// newKey is a stored key about which nothing is known.
func (d *DB) newKey(st *ai.State) *ai.Term {
	k := ai.Sym("dbkey", 0, types.NewSlice(types.Typ[types.Uint8]))
	s := ai.SliceV(k, ai.I64(0), ai.I64(dbKeyLen), ai.I64(dbKeyLen), ai.Bool(false))
	dbAdd(st, "key", s)
	return s
}

// value is the value stored with a key.
func (d *DB) value(st *ai.State, key *ai.Term, t types.Type) *ai.Term {
	v := ai.App("dbval", 0, key.A[0])
	if v.T == nil {
		v.T = t
	}
	s := d.x.SliceOf(v)
	d.x.Assume(st, ai.Le(true, ai.I64(dbMinValue), s.A[2]))
	d.x.Assume(st, ai.Not(s.A[4]))
	return s
}

// noKeys reports whether it is known that no key is stored between two
// positions.
func (d *DB) noKeys(st *ai.State, a, b Pos) bool {
	gs := dbGaps(st)
	used := make([]bool, len(gs))
	from := []Pos{a}
	for len(from) > 0 {
		a := from[0]
		from = from[1:]
		if d.le(st, b, a) {
			return true
		}
		for i, g := range gs {
			if !used[i] && d.le(st, g.a, a) && !d.le(st, g.b, a) {
				used[i] = true
				from = append(from, g.b)
			}
		}
	}
	return false
}

// variant is one way two keys may compare.
type variant struct {
	st   *ai.State
	sign int
}

// compare splits a state by how two keys compare.
func (d *DB) compare(st *ai.State, a, b []*ai.Term) []variant {
	var r []variant
	if len(a) < 4 {
		return d.comparePrefix(st, a, b)
	}
	x, y := a, b
	if len(a) == 4 {
		x, y = version(a, genMin), version(b, genMin)
	}
	d.sync(st, x, y)
	for _, sign := range []int{-1, 0, 1} {
		q := st.Clone()
		ok := false
		switch {
		case sign == 0:
			ok = d.assumeSame(q, a, b)
		case len(a) == 4: // all versions
			x, y := version(a, genMax), version(b, genMin)
			if sign > 0 {
				x, y = version(b, genMax), version(a, genMin)
			}
			ok = d.assume(q, x, y, true)
		case sign < 0:
			ok = d.assume(q, a, b, true)
		default:
			ok = d.assume(q, b, a, true)
		}
		if ok && d.sync(q, x, y) && !infeasible(q) {
			r = append(r, variant{q, sign})
		}
	}
	return r
}

// comparePrefix compares keys by fewer components.
func (d *DB) comparePrefix(st *ai.State, a, b []*ai.Term) []variant {
	var r []variant
	st = st.Clone()
	for i := range a {
		for sign, l := range []*ai.Term{ai.Lt(false, a[i], b[i]), ai.Lt(false, b[i], a[i])} {
			if q := st.Clone(); assume(d.x, q, l) && !d.order(q).bad {
				r = append(r, variant{q, 2*sign - 1})
			}
		}
		if !assume(d.x, st, ai.Eq(a[i], b[i])) || d.order(st).bad {
			return r
		}
	}
	return append(r, variant{st, 0})
}

// split decides how a searched key compares with the known keys of which it may
// be another version.
func (d *DB) split(st *ai.State, s []*ai.Term) []*ai.State {
	sts := []*ai.State{st}
	for _, k := range d.keys(st) {
		var next []*ai.State
		for _, q := range sts {
			kc := comps(q, k)
			if d.common(q, s, kc) != 4 {
				next = append(next, q)
				continue
			}
			for _, v := range d.compare(q, s, kc) {
				next = append(next, v.st)
			}
		}
		sts = next
	}
	return sts
}

// least finds the first key at or after a position.
func (d *DB) least(st *ai.State, p Pos, mayEnd bool) []found {
	var r []found
	for _, q := range d.split(st, p.k) {
		r = append(r, d.least1(q, p, mayEnd)...)
	}
	return r
}

type found struct {
	st  *ai.State
	key *ai.Term // nil if there is none
}

func (d *DB) least1(st *ai.State, p Pos, mayEnd bool) []found {
	d.sync(st, p.k)
	// known already
	for _, g := range dbGaps(st) {
		if g.hi != nil && d.le(st, g.a, p) && d.le(st, p, before(comps(st, g.hi))) {
			return []found{{st, g.hi}}
		}
		if g.hi == nil && d.le(st, g.a, p) && d.le(st, dbEnd, g.b) {
			return []found{{st, nil}}
		}
	}
	for _, k := range d.keys(st) {
		kc := comps(st, k)
		if !p.after && d.common(st, p.k, kc) == 5 || d.lexLE(st, p.k, kc, p.after) && d.noKeys(st, p, before(kc)) {
			return []found{{st, k}}
		}
	}
	var r []found
	q := st.Clone()
	n := d.newKey(q)
	nc := comps(q, n)
	for _, v := range d.compare(q, nc, p.k) {
		if v.sign > 0 || v.sign == 0 && !p.after {
			if d.bounded(v, nc, p, 1) {
				dbGap(v.st, &Gap{a: p, b: before(nc), hi: n})
				r = append(r, found{v.st, n})
			}
		}
	}
	if mayEnd && !d.le(st, p, before(d.sentinel)) && d.order(st).is(p.k[0], d.sentinel[0]) != 2 {
		q := st.Clone()
		if assume(d.x, q, ai.Le(false, d.sentinel[0], p.k[0])) {
			dbGap(q, &Gap{a: p, b: dbEnd})
			r = append(r, found{q, nil})
		}
	}
	return r
}

// bounded adds what follows from the key found being the nearest one: it is not
// behind any known key in the direction of the search. It reports whether the
// variant is possible.
func (d *DB) bounded(v variant, nc []*ai.Term, p Pos, dir int) bool {
	for _, k := range d.keys(v.st) {
		kc := comps(v.st, k)
		if kc == nil || kc[0] == nc[0] {
			continue
		}
		switch {
		case dir > 0 && d.lexLE(v.st, p.k, kc, p.after):
			if !d.assume(v.st, nc, kc, false) {
				return false
			}
		case dir < 0 && d.lexLE(v.st, kc, p.k, !p.after):
			if !d.assume(v.st, kc, nc, false) {
				return false
			}
		}
	}
	return d.sync(v.st)
}

// greatest finds the last key before a position.
func (d *DB) greatest(st *ai.State, p Pos) []found {
	d.sync(st, p.k)
	for _, k := range d.keys(st) {
		if kc := comps(st, k); d.lexLE(st, kc, p.k, !p.after) && d.noKeys(st, after(kc), p) {
			return []found{{st, k}}
		}
	}
	for _, g := range dbGaps(st) {
		if d.le(st, g.b, p) && d.le(st, p, g.b) {
			if g.lo != nil {
				return []found{{st, g.lo}}
			}
			if !d.le(st, p, g.a) {
				p = g.a
			}
		}
	}
	var r []found
	q := st.Clone()
	n := d.newKey(q)
	nc := comps(q, n)
	for _, v := range d.compare(q, nc, p.k) {
		if v.sign < 0 || v.sign == 0 && p.after {
			if d.bounded(v, nc, p, -1) {
				dbGap(v.st, &Gap{a: after(nc), b: p, lo: n})
				r = append(r, found{v.st, n})
			}
		}
	}
	for _, k := range d.keys(st) {
		if d.lexLE(st, comps(st, k), p.k, !p.after) {
			return r // there is one
		}
	}
	q = st.Clone()
	dbGap(q, &Gap{a: dbStart, b: p})
	return append(r, found{q, nil})
}

// dbModels installs the model. It returns nil if the key that marks the end of
// the database is not known.
func (c *Check) dbModels(x *ai.Exec, st *ai.State) *DB {
	d := &DB{x: x}
	g := c.W.global(indexPkg, "MetadataKey")
	if g == nil {
		c.Fail(indexPkg, "MetadataKey not found")
		return nil
	}
	d.sentKey = st.Load(ai.GlobalAddr(g), deref1(g.Type()))
	d.sentinel = comps(st, d.sentKey)
	if d.sentinel == nil {
		c.Fail(indexPkg, "the key of the header record is not known")
		return nil
	}
	for _, k := range d.sentinel {
		if !k.IsConst() {
			c.Fail(indexPkg, "the key of the header record is not constant")
			return nil
		}
	}
	cur := func(n string) string { return "(*" + bboltPkg + ".Cursor)." + n }
	done := func(cl *ai.Call, fs []found, none func(st *ai.State)) []ai.Outcome {
		var r []ai.Outcome
		for _, f := range fs {
			if !d.sync(f.st) {
				continue
			}
			cl.Event(f.st, "call", cl.Name, cl.Args, nil)
			res := cl.Sig.Results()
			if f.key == nil {
				f.st.SetGhost(cl.Args[0], "pos", ai.Nil)
				r = append(r, ai.Outcome{Kind: "return", St: f.st, Ret: ai.Tuple(ai.NilSlice, ai.NilSlice)})
				continue
			}
			f.st.SetGhost(cl.Args[0], "pos", f.key)
			r = append(r, ai.Outcome{Kind: "return", St: f.st, Ret: ai.Tuple(f.key, d.value(f.st, f.key, res.At(1).Type()))})
		}
		return r
	}
	any := func(cl *ai.Call) []found { // nothing is known of the position
		q := cl.St.Clone()
		return []found{{q, d.newKey(q)}, {cl.St, nil}}
	}
	here := func(cl *ai.Call) []*ai.Term {
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		return comps(cl.St, cl.St.Ghost(cl.Args[0], "pos"))
	}
	x.Models[cur("Seek")] = func(cl *ai.Call) []ai.Outcome {
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		s := comps(cl.St, cl.Args[1])
		if s == nil {
			return done(cl, any(cl), nil)
		}
		return done(cl, d.least(cl.St, before(s), true), nil)
	}
	x.Models[cur("First")] = func(cl *ai.Call) []ai.Outcome {
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		return done(cl, d.least(cl.St, dbStart, false), nil)
	}
	x.Models[cur("Next")] = func(cl *ai.Call) []ai.Outcome {
		if k := here(cl); k != nil {
			return done(cl, d.least(cl.St, after(k), true), nil)
		}
		return done(cl, any(cl), nil)
	}
	x.Models[cur("Prev")] = func(cl *ai.Call) []ai.Outcome {
		if k := here(cl); k != nil {
			return done(cl, d.greatest(cl.St, before(k)), nil)
		}
		return done(cl, any(cl), nil)
	}
	x.Models[cur("Last")] = func(cl *ai.Call) []ai.Outcome {
		cl.Need("nil", ai.Not(ai.Eq(cl.Args[0], ai.Nil)))
		return done(cl, d.greatest(cl.St, dbEnd), nil)
	}
	pair := func(cl *ai.Call) (a, b []*ai.Term) {
		for _, p := range append(dbParts[1:], struct{ off, n int64 }{dbKeyLen, 0}) {
			a, b = compsN(cl.St, cl.Args[0], p.off), compsN(cl.St, cl.Args[1], p.off)
			if a != nil && b != nil {
				return
			}
		}
		return nil, nil
	}
	equal, compare := x.Models["bytes.Equal"], x.Models["bytes.Compare"]
	x.Models["bytes.Equal"] = func(cl *ai.Call) []ai.Outcome {
		a, b := pair(cl)
		if a == nil {
			if holds(cl.St, ai.Not(ai.Eq(cl.Args[0].A[2], cl.Args[1].A[2]))) {
				return []ai.Outcome{{Kind: "return", St: cl.St, Ret: ai.Bool(false)}}
			}
			return equal(cl)
		}
		var r []ai.Outcome
		for _, v := range d.compare(cl.St, a, b) {
			r = append(r, ai.Outcome{Kind: "return", St: v.st, Ret: ai.Bool(v.sign == 0)})
		}
		return r
	}
	x.Models["bytes.Compare"] = func(cl *ai.Call) []ai.Outcome {
		a, b := pair(cl)
		if a == nil {
			if compare == nil {
				return nil
			}
			return compare(cl)
		}
		var r []ai.Outcome
		for _, v := range d.compare(cl.St, a, b) {
			r = append(r, ai.Outcome{Kind: "return", St: v.st, Ret: ai.I64(int64(v.sign))})
		}
		return r
	}
	return d
}

func deref1(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (g *Gap) String() string { return fmt.Sprint(g.a, "..", g.b) }
func (p Pos) String() string  { return fmt.Sprint(fmt.Sprintf("%v", p.k), p.after) }
