package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	checks["C32"] = checkC32
}

// pathRel decides, for a lookup of a path,
//
//	at(o, i, k)      directory i of tree o is what the first k components name
//	entry(d, k)      d is an entry with the name of component k in the
//	                 directory that the components before name
//	entryof(o, d, k) and tree o is the one it was found in
type pathRel struct {
	c     *Check
	owner *ai.Term // the tree that the lookup starts in
	comps *ai.Term // the components
	hash  *ai.Term // the hash of name
	name  *ai.Term
}

func (q *pathRel) comp(k *ai.Term) *ai.Term {
	return ai.App("elem", 0, ai.App("reg", 0, q.comps), k)
}

// isComp recognises a component of the path.
func (q *pathRel) isComp(t *ai.Term) (k *ai.Term, ok bool) {
	if t.Op != ai.OApp || t.S != "elem" || len(t.A) != 2 || t.A[0].Op != ai.OApp || t.A[0].S != "reg" {
		return nil, false
	}
	s := t.A[0].A[0]
	if q.comps == nil && q.splits(s) {
		q.comps = s
	}
	return t.A[1], s == q.comps
}

// splits recognises the components of a clean path.
func (q *pathRel) splits(t *ai.Term) bool {
	if t.Op != ai.OApp || t.S != "strings.Split" || t.A[1] != ai.Str("/") {
		return false
	}
	s := t.A[0]
	if s.Op == ai.OApp && (s.S == "strings.TrimLeft" || s.S == "strings.TrimPrefix" || s.S == "strings.Trim") && s.A[1] == ai.Str("/") {
		s = s.A[0]
	}
	return s.Op == ai.OSym
}

// named reports whether an entry bears the name of a component.
func (q *pathRel) named(s Site, d, k *ai.Term) bool {
	n := ai.App(dirName, 0, d)
	r := false
	s.facts.Each(func(l *ai.Term) bool {
		if l.Op == ai.OEq {
			for i, t := range l.A {
				if t == n {
					j, ok := q.isComp(l.A[1-i])
					r = r || ok && j == k
				}
			}
		}
		return !r
	})
	return r
}

func (q *pathRel) base(r *Rel, kind string, s Site, ts []*ai.Term) (bool, string) {
	switch kind {
	case "at":
		o, i, k := ts[0], ts[1], ts[2]
		before := ai.AddK(k, -1)
		switch {
		case i.Op == ai.OApp && i.S == locID:
			d := i.A[0]
			return r.holds("entryof", s, o, d, before)
		case isInt(i, rootDirID) && o.Op == ai.OApp && o.S == locID:
			return r.holds("entry", s, o.A[0], before)
		case isInt(i, rootDirID) && o == q.owner:
			if k == ai.I64(0) {
				return true, ""
			}
			return false, "a component is looked up in the root directory that is not the first one"
		}
		return false, "a component is looked up in a directory that the path does not lead to"
	case "entry", "entryof":
		o, d, k := (*ai.Term)(nil), ts[0], ts[1]
		if kind == "entryof" {
			o, d, k = ts[0], ts[1], ts[2]
		}
		if d.Op != ai.OApp || d.S != itemData {
			return false, "what the path leads through is not an entry of a directory"
		}
		it := d.A[0]
		var eo, ei *ai.Term
		switch {
		case it.Op == ai.OApp && it.S == "item" && isInt(it.A[2], 84):
			eo, ei = it.A[1], it.A[3]
			if q.name != nil && it.A[4] != ai.Subst(q.hash, map[*ai.Term]*ai.Term{q.name: q.comp(k)}) {
				return false, "the key of a direct lookup is not the hash of the component"
			}
		case it.Op == ai.OApp && it.S == "rngitem" && len(it.A[0].A) == 8:
			b := it.A[0]
			if !(isInt(b.A[2], 84) || isInt(b.A[2], 96)) || b.A[5] != b.A[2] || b.A[6] != b.A[3] {
				return false, "an entry is searched among items of other kinds or directories"
			}
			eo, ei = b.A[1], b.A[3]
		default:
			return false, "what the path leads through is not an entry of a directory"
		}
		if o != nil && o != eo {
			return false, "an entry is followed in another tree than it was found in"
		}
		if !q.named(s, d, k) {
			return false, "an entry is followed without its name being equal to the component"
		}
		return r.holds("at", s, eo, ei, k)
	}
	return false, "?"
}

// indices are the indices that are known to be ones of components.
func (q *pathRel) indices(facts *ai.Facts, p *Part) []*ai.Term {
	r := []*ai.Term{ai.I64(0)}
	n := ai.App("len", 64, q.comps)
	facts.Each(func(l *ai.Term) bool {
		if lo, hi, _, ok := ai.Less(l); ok && hi == n {
			r = append(r, lo)
		}
		return true
	})
	for _, l := range p.loops {
		for _, s := range l.Syms {
			if s.W == 64 {
				r = append(r, s, ai.AddK(s, 1), ai.AddK(s, -1))
			}
		}
	}
	return r
}

func checkC32(c *Check) {
	c.Rules = map[string]string{
		"hash":    "the hash of a name is the inverted CRC-32C of its bytes, started with 1",
		"found":   "a path lookup returns an entry only if every component equals the name of an entry of the directory reached so far",
		"missing": "a path lookup fails only after all entries of the directory reached so far were compared with the component",
		"child":   "the mounted view resolves a name to the entry with that name, and registers it under that name",
	}
	q := &pathRel{c: c}
	c.nameHash(q)
	f := c.Need(indexPkg + ":Index.FindDirItemForPath")
	if f == nil {
		return
	}
	v := c.readView(f)
	p := v.parts[0]
	for _, a := range p.args {
		if a.W == 64 && q.owner == nil && a.Op == ai.OSym {
			q.owner = a
		}
	}
	if len(p.args) == 3 {
		q.owner = p.args[1]
	}
	for _, e := range p.all {
		e.Facts.Each(func(l *ai.Term) bool {
			l.Walk(func(t *ai.Term) bool {
				q.isComp(t)
				return q.comps == nil
			})
			return q.comps == nil
		})
	}
	where, pos := fnShort(f), c.pos(f.Pos())
	c.Ob(q.comps != nil, "found", where, pos, "the components of the path are not compared with names")
	if q.comps == nil {
		return
	}
	nf, nm := 0, 0
	for _, o := range p.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		s := Site{p: p, facts: o.St.Facts, where: where, pos: pos}
		d := o.Ret.A[0]
		if d.Op == ai.OSlice && d.A[4].True() {
			nm++
			ok, why := c.searched(q, v, s, o.St)
			c.Ob(ok, "missing", where, pos, "%s", why)
			continue
		}
		nf++
		rt := ai.Root(d)
		ok, why := false, "what is returned is not an entry of a directory"
		if rt != nil {
			for _, k := range q.indices(o.St.Facts, p) {
				if !holds(o.St, ai.Eq(ai.AddK(k, 1), ai.App("len", 64, q.comps))) {
					continue
				}
				r := v.rel(q.base)
				if ok, why = r.holds("entryof", s, o.Ret.A[1], rt, k); ok {
					break
				}
			}
		}
		c.Ob(ok, "found", where, pos, "%s", why)
	}
	c.Ob(nf > 0, "found", where, pos, "a path is never found")
	c.Ob(nm > 0, "missing", where, pos, "a path is never missing")
	c.children()
}

// nameHash checks the hash of names.
func (c *Check) nameHash(q *pathRel) {
	f := c.Need(indexPkg + ":NameHash")
	if f == nil {
		return
	}
	x, st := c.W.Exec()
	args := x.Params(f)
	n := 0
	for _, o := range x.Run(f, args, st) {
		if o.Kind != "return" {
			continue
		}
		n++
		want := func(u *ai.Term) bool {
			return u.Op == ai.OApp && u.S == "hash/crc32.Update" && isInt(u.A[0], 1) && u.A[1].Op == ai.OApp &&
				u.A[1].S == "nn:crc32.MakeTable" && isInt(u.A[1].A[0], 0x82f63b78) && wholeText(u.A[2], args[0])
		}
		var crc *ai.Term
		o.Ret.Walk(func(t *ai.Term) bool {
			if want(t) {
				crc = t
			}
			return crc == nil
		})
		ok := crc != nil && o.Ret == ai.Sub(ai.Int(32, 0xffffffff), crc)
		c.Ob(ok, "hash", fnShort(f), c.pos(f.Pos()), "the hash of a name is %s", o.Ret.Short())
		q.hash, q.name = ai.ZExt(64, o.Ret), args[0]
	}
	c.Errs(x, fnShort(f))
	c.saw(f)
	c.Ob(n == 1, "hash", fnShort(f), "", "%d results", n)
}

// wholeText reports whether bytes are those of a whole text.
func wholeText(t, s *ai.Term) bool {
	if t.Op == ai.OSlice {
		return t.A[1] == ai.I64(0) && t.A[2] == ai.StrLen(s) && termContains(t.A[0], s)
	}
	if t.Op == ai.OApp && t.S == "bytes" && len(t.A) == 3 {
		return t.A[1] == ai.I64(0) && t.A[2] == ai.StrLen(s) && termContains(t.A[0], s)
	}
	return false
}

// searched decides that a lookup has compared all entries of a directory
// before it fails.
func (c *Check) searched(q *pathRel, v *View, s Site, st *ai.State) (bool, string) {
	why := "the lookup fails without having compared all entries of the directory"
	p := s.p
	for e := st.Trace; e != nil; e = e.Prev {
		o, i, ok := dirRange(e)
		if !ok {
			continue
		}
		b := e.Args[0]
		if b.A[4] != ai.I64(0) && !isInt(b.A[4], 0) || !isInt(b.A[7], ^uint64(0)) {
			return false, "only a part of the entries of a directory is compared"
		}
		ks := q.indices(s.facts, p)
		at := -1
		for n, k := range ks {
			r := v.rel(q.base)
			if ok, _ := r.holds("at", s, o, i, k); ok {
				at = n
				break
			}
		}
		if at < 0 {
			return false, "a component is searched in a directory that the path does not lead to"
		}
		count := ai.App("rngcount", 64, b)
		if s.fact(ai.Not(ai.Lt(true, ai.I64(0), count))) {
			return true, ""
		}
		for _, l := range p.loops {
			for _, sym := range l.Syms {
				if sym.W != 64 || !s.fact(ai.Not(ai.Lt(true, sym, count))) || l.Init[sym] != ai.I64(0) {
					continue
				}
				good := true
				for _, bk := range l.Backs {
					if infeasible(bk.Path.St) {
						continue
					}
					d := ai.App(itemData, 0, ai.App("rngitem", 0, b, sym))
					bs := Site{p: p, facts: bk.Path.St.Facts}
					if bk.Next[sym] != ai.AddK(sym, 1) || !q.rejected(bs, d, ks[at]) {
						good = false
					}
				}
				if good {
					return true, ""
				}
			}
		}
		return false, why
	}
	return false, why
}

// rejected decides that an entry was passed over because it has another name,
// or is no directory that the path could lead through.
func (q *pathRel) rejected(s Site, d, k *ai.Term) bool {
	if s.nfact(ai.Eq(ai.App(dirName, 0, d), q.comp(k))) {
		return true
	}
	last := ai.Eq(ai.AddK(k, 1), ai.App("len", 64, q.comps))
	return s.nfact(last) && s.nfact(ai.Eq(ai.App(dirType, 8, d), ai.Int(8, 2)))
}

// children checks how the mounted view resolves names.
func (c *Check) children() {
	v := c.mountView(nil)
	if v == nil {
		return
	}
	n := 0
	for _, p := range v.parts {
		if !p.handler || p.fn.Name() != "Lookup" || len(p.args) < 3 || !isStringType(p.fn.Params[2].Type()) {
			continue
		}
		name := p.args[2]
		where, pos := fnShort(p.fn), c.pos(p.fn.Pos())
		for _, e := range p.all {
			g := staticName(e)
			if e.Kind != "call" || !strings.HasSuffix(g, "/nodefs.Inode).NewChild") {
				continue
			}
			n++
			c.Ob(len(e.Args) > 3 && (e.Args[1] == name || e.Facts.Holds(ai.Eq(e.Args[1], name)) > 0), "child", where, c.pos(e.Instr.Pos()), "an entry is registered under another name than the one that is looked up")
		}
		m := 0
		for _, q := range v.published {
			if q.p != p {
				continue
			}
			m++
			d := entryIn(q.vals)
			ok, why := false, "a node is made that is not that of a directory entry"
			if d != nil {
				why = "a name is resolved to an entry that may have another name"
				ok = q.facts.Holds(ai.Eq(ai.App(dirName, 0, d), name)) > 0
			}
			c.Ob(ok, "child", where, q.pos, "%s", why)
		}
		c.Ob(m > 0, "child", where, pos, "no name is ever resolved")
		for _, o := range p.outs {
			if o.Kind != "return" || infeasible(o.St) || o.Ret.Op != ai.OStruct && o.Ret.Op != ai.OTuple {
				continue
			}
			code := o.Ret.A[1]
			if o.St.Facts.Holds(ai.Eq(code, ai.Int(code.W, 0))) < 0 || code.IsConst() && code.SVal() != 0 {
				continue
			}
			found := false
			for e := o.St.Trace; e != nil; e = e.Prev {
				found = found || e.Kind == "call" && strings.HasSuffix(staticName(e), "/nodefs.Inode).NewChild")
			}
			c.Ob(found, "child", where, pos, "a lookup succeeds without an entry")
		}
	}
	c.Ob(n > 0, "child", "mount", "", "no nodes are made for names")
}

// entryIn finds the directory entry whose object a node is for.
func entryIn(vals []*ai.Term) *ai.Term {
	var d *ai.Term
	for _, t := range vals {
		if t != nil && t.Op == ai.OApp && t.S == locID {
			d = t.A[0]
		}
	}
	return d
}

func staticName(e *ai.Event) string {
	if _, ok := e.Instr.(ssa.CallInstruction); ok {
		return e.Name
	}
	return ""
}
