package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	checks["C14"] = checkC14
}

// Key types of items whose object id is an inode of a tree.
var inodeTypes = map[uint64]bool{1: true, 12: true, 13: true, 24: true, 84: true, 96: true, 108: true}

// Names of types and locations in directory entries.
const (
	locID   = btrfsDot + "DirItem.Location.0"
	locType = btrfsDot + "DirItem.Location.1"
	dirName = btrfsDot + "DirItem.Name"
	dirType = btrfsDot + "DirItem.Type"

	rootItemType = 132
	rootDirID    = 256
)

// Site is a place in the analysis of a function: what is known there.
type Site struct {
	p     *Part
	facts *ai.Facts
	where string
	pos   string
	step  bool // what is asked about is handed on by a visit of something else
}

func (p *Part) site(e *ai.Event) Site {
	return Site{p: p, facts: e.Facts, where: fnShort(e.Fn), pos: p.v.c.pos(e.Instr.Pos())}
}

func (s Site) fact(l *ai.Term) bool  { return s.facts.Holds(l) > 0 }
func (s Site) nfact(l *ai.Term) bool { return s.facts.Holds(l) < 0 }

// Rel decides relations between two values, following them to where arguments,
// fields of shared objects, elements of slices and loop variables come from.
type Rel struct {
	v     *View
	base  func(r *Rel, kind string, s Site, ts []*ai.Term) (ok bool, why string)
	asked map[string]bool
	depth int
	final bool // the base case has decided that it does not hold
}

func (v *View) rel(base func(r *Rel, kind string, s Site, ts []*ai.Term) (bool, string)) *Rel {
	return &Rel{v: v, base: base, asked: map[string]bool{}}
}

func (r *Rel) holds(kind string, s Site, ts ...*ai.Term) (bool, string) {
	r.final = false
	ok, why := r.base(r, kind, s, ts)
	if ok {
		return true, ""
	}
	if final := r.final; final || r.depth > 8 {
		r.final = false
		return false, why
	}
	r.depth++
	defer func() { r.depth-- }()
	if ok, w, done := r.lift(kind, s, ts); done {
		if !ok && w == "" {
			w = why
		}
		return ok, w
	}
	return false, why
}

func contains(ts []*ai.Term, m map[*ai.Term]bool) bool {
	for _, t := range ts {
		if containsAny(t, m) {
			return true
		}
	}
	return false
}

func containsAny(t *ai.Term, m map[*ai.Term]bool) bool {
	f := false
	t.Walk(func(u *ai.Term) bool {
		f = f || m[u]
		return !f
	})
	return f
}

// ask reports whether a question was asked before: it is then assumed to hold
// where it is asked, as it is decided for all its origins the first time.
func (r *Rel) ask(kind string, s Site, at string, ts []*ai.Term) bool {
	k := fmt.Sprintf("%s|%p|%s", kind, s.p, at)
	for _, t := range ts {
		k += fmt.Sprintf("|%p", t)
	}
	if r.asked[k] {
		return true
	}
	r.asked[k] = true
	return false
}

func (r *Rel) lift(kind string, s Site, ts []*ai.Term) (ok bool, why string, done bool) {
	p := s.p
	// elements of a slice
	if m := p.holes(ts); m != nil {
		if r.ask(kind, s, "elem", ts) {
			return true, "", true
		}
		n := 0
		for _, e := range p.all {
			if e.Kind != "append" {
				continue
			}
			for _, el := range p.elems[e] {
				sub := m.match(el)
				if sub == nil {
					continue
				}
				n++
				if ok, why := r.holds(kind, p.site(e), substAll(ts, sub)...); !ok {
					return false, why, true
				}
			}
		}
		return n > 0, "", true
	}
	// loop variables, the innermost loop first
	for i := len(p.loops) - 1; i >= 0; i-- {
		l := p.loops[i]
		syms := map[*ai.Term]bool{}
		for _, q := range l.Syms {
			syms[q] = true
		}
		if !contains(ts, syms) {
			continue
		}
		if r.ask(kind, s, "loop", ts) {
			return true, "", true
		}
		type from struct {
			f    *ai.Facts
			m    map[*ai.Term]*ai.Term
			step bool
		}
		fs := []from{{l.Entry.Facts, l.Init, false}}
		for j, q := range l.More {
			fs = append(fs, from{q.St.Facts, l.MoreInit[j], false})
		}
		for _, q := range l.Backs {
			if !infeasible(q.Path.St) {
				fs = append(fs, from{q.Path.St.Facts, q.Next, true})
			}
		}
		for _, f := range fs {
			if ok, why := r.holds(kind, Site{p, f.f, fnShort(l.Fn), p.v.c.loopPos(l), f.step}, substAll(ts, f.m)...); !ok {
				return false, why, true
			}
		}
		return true, "", true
	}
	// arguments of a recursive function
	if p.rec {
		par := map[*ai.Term]int{}
		is := map[*ai.Term]bool{}
		for i, q := range p.args {
			argLeaves(q, func(t *ai.Term) {
				par[t] = i
				is[t] = true
			})
		}
		if contains(ts, is) {
			if r.ask(kind, s, "args", ts) {
				return true, "", true
			}
			n := 0
			for _, q := range r.v.parts {
				for _, e := range q.evs {
					if callee(e) != p.fn {
						continue
					}
					n++
					sub := map[*ai.Term]*ai.Term{}
					for i, f := range p.args {
						pairLeaves(f, e.Args[i], sub)
					}
					at := q.site(e)
					at.step = q.rec
					if ok, why := r.holds(kind, at, substAll(ts, sub)...); !ok {
						if why != "" && !strings.HasPrefix(why, "at ") {
							why = "at " + r.v.c.pos(e.Instr.Pos()) + ": " + why
						}
						return false, why, true
					}
				}
			}
			return n > 0, "", true
		}
	}
	// fields of the object a request is for
	if p.handler {
		is := map[*ai.Term]bool{}
		for _, f := range p.fields {
			if f != nil {
				is[f] = true
			}
		}
		if contains(ts, is) {
			if r.ask(kind, s, "fields", ts) {
				return true, "", true
			}
			n := 0
			for _, q := range r.v.published {
				if q.typ != p.recv {
					continue
				}
				n++
				sub := map[*ai.Term]*ai.Term{}
				for i, f := range p.fields {
					if f != nil && q.vals[i] != nil {
						sub[f] = q.vals[i]
					}
				}
				if ok, why := r.holds(kind, Site{q.p, q.facts, q.where, q.pos, q.p.recv == q.typ}, substAll(ts, sub)...); !ok {
					if why != "" && !strings.HasPrefix(why, "at ") {
						why = "at " + q.pos + ": " + why
					}
					return false, why, true
				}
			}
			return n > 0, "", true
		}
	}
	return false, "", false
}

func substAll(ts []*ai.Term, m map[*ai.Term]*ai.Term) []*ai.Term {
	r := make([]*ai.Term, len(ts))
	for i, t := range ts {
		r[i] = ai.Subst(t, m)
	}
	return r
}

// argLeaves lists what an argument is made of.
func argLeaves(t *ai.Term, f func(t *ai.Term)) {
	switch t.Op {
	case ai.OStruct:
		for _, a := range t.A {
			argLeaves(a, f)
		}
	case ai.OSlice:
		if r := ai.Root(t); r != nil {
			f(r)
		}
	default:
		f(t)
	}
}

func pairLeaves(t, u *ai.Term, m map[*ai.Term]*ai.Term) {
	switch {
	case t.Op == ai.OStruct && u.Op == ai.OStruct && len(t.A) == len(u.A):
		for i := range t.A {
			pairLeaves(t.A[i], u.A[i], m)
		}
	case t.Op == ai.OSlice:
		if r, s := ai.Root(t), ai.Root(u); r != nil && s != nil {
			m[r] = s
		}
	default:
		m[t] = u
	}
}

// holeSet are the parts of an element of a slice that two values use.
type holeSet struct {
	tmpl *ai.Term
	inst map[*ai.Term]*ai.Term // hole -> its instance
}

func (p *Part) holes(ts []*ai.Term) *holeSet {
	var h *holeSet
	var reg, idx *ai.Term
	bad := false
	for _, t := range ts {
		t.Walk(func(u *ai.Term) bool {
			if u.Op != ai.OApp || !strings.HasPrefix(u.S, "inst:") || len(u.A) != 3 {
				return true
			}
			s := u.A[0]
			if s.Op != ai.OApp || s.S != "sumreg" || s.A[1].Op != ai.OApp || s.A[1].S != "sum" {
				return true
			}
			if h == nil {
				h = &holeSet{s.A[1].A[0], map[*ai.Term]*ai.Term{}}
				reg, idx = s, u.A[1]
			}
			if s != reg || u.A[1] != idx {
				return true // of another element: handled in turn
			}
			h.inst[u.A[2]] = u
			return false
		})
	}
	if bad {
		return nil
	}
	return h
}

// match finds what the instances are if the element is el.
func (h *holeSet) match(el *ai.Term) map[*ai.Term]*ai.Term {
	m := map[*ai.Term]*ai.Term{}
	var walk func(t, u *ai.Term) bool
	walk = func(t, u *ai.Term) bool {
		if i, ok := h.inst[t]; ok {
			m[i] = u
			return true
		}
		if t.Op == ai.OSlice && u.Op == ai.OSlice {
			r, s := ai.Root(t), ai.Root(u)
			if r != nil && s != nil {
				return walk(r, s)
			}
			return u.A[4].True() || r == nil
		}
		if t.Op == ai.OStruct {
			if u.Op != ai.OStruct || len(t.A) != len(u.A) {
				return false
			}
			for i := range t.A {
				if !walk(t.A[i], u.A[i]) {
					return false
				}
			}
			return true
		}
		if t.Op == u.Op && t.Op == ai.OApp && t.S == u.S && len(t.A) == len(u.A) {
			for i := range t.A {
				if !walk(t.A[i], u.A[i]) {
					return false
				}
			}
		}
		return true
	}
	if !walk(h.tmpl, el) || len(m) != len(h.inst) {
		return nil
	}
	return m
}

// appended reads the elements that an append event adds.
func appended(e *ai.Event) []*ai.Term {
	c, ok := e.Instr.(ssa.CallInstruction)
	if !ok || len(e.Args) != 2 || e.St == nil || e.Args[1].Op != ai.OSlice {
		return nil
	}
	st, ok := c.Common().Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	s := e.Args[1]
	if s.A[2].Op != ai.OInt || s.A[2].K > 16 {
		return nil
	}
	var r []*ai.Term
	for i := int64(0); i < int64(s.A[2].K); i++ {
		r = append(r, e.St.ReadElem(s.A[0], ai.AddK(s.A[1], i), st.Elem()))
	}
	return r
}

// treeRel decides for a tree and an inode whether the inode belongs to the
// tree ("pair"), and for a tree and a directory entry whether it was found in
// that tree ("owner").
func (c *Check) treeRel(r *Rel, kind string, s Site, ts []*ai.Term) (bool, string) {
	a, b := ts[0], ts[1]
	if kind == "owner" {
		return c.ownerRel(r, s, a, b)
	}
	o, i := a, b
	if i.Op == ai.OInt && i.K == rootDirID {
		switch {
		case o.Op == ai.OApp && o.S == "rngid" && len(o.A[0].A) == 8 && o.A[0].A[1] == ai.Int(64, 1) && isInt(o.A[0].A[2], rootItemType) && isInt(o.A[0].A[5], rootItemType):
			return true, ""
		case o.Op == ai.OApp && o.S == locID:
			if s.fact(isSubvol(o.A[0])) {
				return true, ""
			}
			return false, "an entry that may not be a subvolume is looked up as one"
		case s.step || s.underSubvol():
			r.final = true
			return false, "the root directory of a tree is looked up in the tree that refers to it"
		case o.Op == ai.OInt:
			return true, ""
		case !s.p.rec && !s.p.handler && s.p.root(o):
			return true, "" // a tree the caller asks for
		}
		return false, "the root directory of a tree is looked up in a tree that is not known to be meant"
	}
	if i.Op == ai.OApp && i.S == locID {
		d := i.A[0]
		if !s.nfact(isSubvol(d)) && !s.fact(ai.Eq(ai.App(dirType, 8, d), ai.Int(8, 1))) && !s.fact(ai.Eq(ai.App(dirType, 8, d), ai.Int(8, 7))) {
			return false, "an entry that may be a subvolume is looked up as an inode of the same tree"
		}
		if ok, _ := r.holds("owner", s, o, d); ok {
			return true, ""
		}
		return false, "an entry's inode is looked up in another tree than the entry was found in"
	}
	return false, "an inode is looked up in a tree that it is not known to belong to"
}

func (p *Part) root(t *ai.Term) bool {
	for _, a := range p.args {
		if a == t {
			return true
		}
	}
	return false
}

func isSubvol(d *ai.Term) *ai.Term { return ai.Eq(ai.App(locType, 8, d), ai.Int(8, rootItemType)) }

// underSubvol reports whether some entry is known to refer to a subvolume.
func (s Site) underSubvol() bool {
	r := false
	s.facts.Each(func(l *ai.Term) bool {
		if l.Op == ai.OEq {
			for i, t := range l.A {
				r = r || t.Op == ai.OApp && t.S == locType && isInt(l.A[1-i], rootItemType)
			}
		}
		return !r
	})
	return r
}

func isInt(t *ai.Term, k uint64) bool { return t.Op == ai.OInt && t.K == k }

// ownerRel: the entry with data d was found in tree o.
func (c *Check) ownerRel(r *Rel, s Site, o, d *ai.Term) (bool, string) {
	why := "the entry was found in another tree"
	if d == ai.Nil || d.Op == ai.OInt && d.K == 0 {
		return true, ""
	}
	if d.Op != ai.OApp {
		return false, why
	}
	switch {
	case d.S == itemData && d.A[0].Op == ai.OApp:
		it := d.A[0]
		switch {
		case it.S == "rngitem" && len(it.A[0].A) == 8:
			return it.A[0].A[1] == o, why
		case it.S == "item":
			return it.A[1] == o, why
		}
	case d.S == "pathitem":
		if o.Op != ai.OApp || o.S != "pathowner" || len(o.A) != len(d.A) {
			return false, why
		}
		for i := range o.A {
			if o.A[i] != d.A[i] {
				return false, why
			}
		}
		return true, ""
	case d.S == "mapget":
		return c.mapOwner(r, s, o, d)
	}
	return false, why
}

// mapOwner: the entries in a map of an object were all found in the tree that a
// field of the same object names.
func (c *Check) mapOwner(r *Rel, s Site, o, d *ai.Term) (bool, string) {
	why := "the entry comes from a map that may hold entries of other trees"
	p := s.p
	oi := p.field(o)
	mi := -1
	for _, e := range p.all {
		if e.Kind == "maplookup" && e.Args[2] != nil && ai.Root(e.Args[2]) == d {
			k := p.field(e.Args[0])
			if k < 0 || mi >= 0 && mi != k {
				return false, why
			}
			mi = k
		}
	}
	if oi < 0 || mi < 0 {
		return false, why
	}
	mt, ok := p.fieldType(mi).Underlying().(*types.Map)
	if !ok {
		return false, why
	}
	// what is put into maps of that kind
	n := 0
	for _, q := range r.v.parts {
		for _, e := range q.all {
			mu, ok := e.Instr.(*ssa.MapUpdate)
			if e.Kind != "mapupdate" || !ok || !types.Identical(mu.Map.Type().Underlying(), mt) {
				continue
			}
			n++
			if q.recv != p.recv || q.field(e.Args[0]) != mi || e.Args[2] == nil || ai.Root(e.Args[2]) == nil {
				return false, why
			}
			if ok, w := r.holds("owner", q.site(e), q.fields[oi], ai.Root(e.Args[2])); !ok {
				return false, "an entry put into a map at " + c.pos(e.Instr.Pos()) + ": " + w
			}
		}
	}
	// every object has a map of its own
	for _, q := range r.v.published {
		if q.typ == p.recv && (q.vals[mi] == nil || !strings.HasPrefix(q.vals[mi].S, "map:")) {
			return false, "objects may share a map of entries (" + q.pos + ")"
		}
	}
	return n > 0, why
}

// field finds the field of the receiver that a value is.
func (p *Part) field(t *ai.Term) int {
	for i, f := range p.fields {
		if f != nil && f == t {
			return i
		}
	}
	return -1
}

func (p *Part) fieldType(i int) types.Type {
	return p.recv.Underlying().(*types.Struct).Field(i).Type()
}

// checkLookups checks the lookups of a view.
func (c *Check) checkLookups(v *View) *Rel {
	r := v.rel(c.treeRel)
	n := 0
	for _, p := range v.parts {
		for _, e := range p.all {
			var o, t, i *ai.Term
			switch e.Kind {
			case "range":
				b := e.Args[0]
				if len(b.A) != 8 {
					continue
				}
				o, t, i = b.A[1], b.A[2], b.A[3]
				if b.A[6] != i && inodeType(t) {
					continue // not of one inode
				}
			case "find":
				b := e.Args[0]
				o, t, i = b.A[1], b.A[2], b.A[3]
			default:
				continue
			}
			if t.Op == ai.OInt && !inodeTypes[t.K] {
				continue
			}
			n++
			ok, why := r.holds("pair", p.site(e), o, i)
			c.Ob(ok, "tree", fnShort(e.Stack[0])+" "+lookupName(e), c.pos(sitePos(e).Pos()), "%s", why)
		}
	}
	c.Ob(n > 0 || v.name == "dump-index", "tree", v.name, "", "no lookups found")
	c.Counts["lookups"] += n
	return r
}

func inodeType(t *ai.Term) bool { return t.Op == ai.OInt && inodeTypes[t.K] }

func lookupName(e *ai.Event) string {
	b := e.Args[0]
	return e.Kind + " of items of type " + b.A[2].String()
}

func sitePos(e *ai.Event) ssa.Instruction { return e.Instr }

func checkC14(c *Check) {
	c.Rules = map[string]string{
		"tree":   "every lookup of items of an inode names a tree and an inode that belong together: those of the directory entry that led there, or, if and only if it refers to a subvolume, that subvolume's tree and root directory",
		"result": "a path lookup returns an entry together with the tree it was found in",
	}
	c.Assume = append(c.Assume, "the root directory of every tree is inode 256")
	for _, v := range c.views() {
		c.checkLookups(v)
	}
	f := c.Need(indexPkg + ":Index.FindDirItemForPath")
	if f == nil {
		return
	}
	v := c.readView(f)
	r := c.checkLookups(v)
	p := v.parts[0]
	n := 0
	for _, o := range p.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		d := o.Ret.A[0]
		if d.Op == ai.OSlice && d.A[4].True() {
			continue
		}
		n++
		rt := ai.Root(d)
		ok, why := false, "what is returned is not an entry of the index"
		if rt != nil {
			ok, why = r.holds("owner", Site{p: p, facts: o.St.Facts, where: fnShort(f), pos: c.pos(f.Pos())}, o.Ret.A[1], rt)
		}
		c.Ob(ok, "result", fnShort(f), c.pos(f.Pos()), "%s", why)
	}
	c.Ob(n > 0, "result", fnShort(f), "", "a path is never found")
}

// readView analyses a function of the index that reads, over the model of the
// functions it uses.
func (c *Check) readView(f *ssa.Function) *View {
	v := &View{c: c, name: fnShort(f)}
	api := c.readAPI()
	delete(api, fnShort(f))
	v.setup = func(x *ai.Exec) { x.Anchor = both(anchors(api), c.accessors()) }
	v.run(nil, Root{f, func(p *Part) []ai.Outcome {
		p.args = p.x.Params(f)
		if c.isIndexPtr(f.Params[0].Type()) {
			p.x.Assume(p.st, ai.Not(ai.Eq(p.args[0], ai.Nil)))
		}
		return p.x.Run(f, p.args, p.st)
	}})
	return v
}

// pubRec is an object handed to the FUSE library.
type pubRec struct {
	p     *Part
	typ   *types.Named
	vals  []*ai.Term
	facts *ai.Facts
	where string
	pos   string
	emb   map[string]*ai.Term // what its embedded interfaces hold, by their fields
}

func fieldsOf(st *ai.State, obj *ai.Term, t *types.Named) []*ai.Term {
	s := t.Underlying().(*types.Struct)
	var r []*ai.Term
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch ft.Underlying().(type) {
		case *types.Basic, *types.Pointer, *types.Map, *types.Interface:
			r = append(r, st.Load(ai.FieldAddr(obj, i), ft))
		default:
			r = append(r, nil)
		}
	}
	return r
}

// publish records the objects in a value that is handed out.
func (v *View) publish(p *Part, st *ai.State, t *ai.Term, where, pos string) {
	hs := map[*types.Named]bool{}
	for _, h := range v.c.W.handlerTypes() {
		hs[h] = true
	}
	t.Walk(func(u *ai.Term) bool {
		if u.Op != ai.OIface {
			return true
		}
		if pt, ok := u.X.(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && hs[n] {
				v.published = append(v.published, pubRec{p, n, fieldsOf(st, u.A[0], n), st.Facts, where, pos, embedded(st, u.A[0], n)})
			}
		}
		return true
	})
}
