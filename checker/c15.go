package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	checks["C15"] = checkC15
}

// Walks are the recursive functions of a view with the set of visited
// directories that each of them uses.
type Walks struct {
	c     *Check
	v     *View
	parts map[*ssa.Function]*Part
	set   map[*Part]*ai.Term // the map a function marks in
	asked map[string]bool
}

// dirRange reads the tree and the directory of a listing.
func dirRange(e *ai.Event) (o, i *ai.Term, ok bool) {
	if e.Kind != "range" || len(e.Args[0].A) != 8 {
		return nil, nil, false
	}
	b := e.Args[0]
	if isInt(b.A[2], 84) || isInt(b.A[2], 96) {
		return b.A[1], b.A[3], true
	}
	return nil, nil, false
}

// leavesIn reports whether a value is determined by others.
func leavesIn(t *ai.Term, from ...*ai.Term) bool {
	for _, f := range from {
		if t == f {
			return true
		}
	}
	switch t.Op {
	case ai.OSym, ai.OObj:
		return false
	case ai.OInt, ai.OStr:
		return true
	}
	if len(t.A) == 0 {
		return t.IsConst()
	}
	for _, a := range t.A {
		if !leavesIn(a, from...) {
			return false
		}
	}
	return true
}

// marks reports whether an event puts something into a set.
func marks(e *ai.Event) bool {
	if e.Kind != "mapupdate" {
		return false
	}
	v := e.Args[2]
	return v.True() || v.Op == ai.OStruct && len(v.A) == 0
}

// fresh decides that a key was not in a set of the given content.
func (w *Walks) fresh(p *Part, facts *ai.Facts, set, ver, key *ai.Term) (bool, string) {
	top := ver
	for {
		for _, u := range []*ai.Term{top, ver} {
			if facts.Holds(ai.App("maphas", 0, u, key)) < 0 || facts.Holds(ai.App("mapget", 0, u, key)) < 0 {
				return true, ""
			}
		}
		if ver.Op != ai.OApp || ver.S != "mapupd" {
			break
		}
		if facts.Holds(ai.Eq(ver.A[1], key)) >= 0 {
			return false, "a directory may have been visited already"
		}
		ver = ver.A[0]
	}
	if ver.Op == ai.OApp && ver.S == "emptymap" {
		return true, ""
	}
	why := "a directory is entered without asking whether it was visited before"
	if !p.rec || ver != set {
		return false, why
	}
	k := fmt.Sprintf("%p %p %p", p, set, key)
	if w.asked[k] {
		return true, ""
	}
	w.asked[k] = true
	n := 0
	for _, q := range w.v.parts {
		for _, e := range q.evs {
			if callee(e) != p.fn {
				continue
			}
			n++
			sub := map[*ai.Term]*ai.Term{}
			for i, f := range p.args {
				pairLeaves(f, e.Args[i], sub)
			}
			s2 := ai.Subst(set, sub)
			v2 := w.verAt(q, e, s2)
			if v2 == nil {
				return false, "the set of visited directories is not known at " + w.c.pos(e.Instr.Pos())
			}
			if ok, _ := w.fresh(q, e.Facts, s2, v2, ai.Subst(key, sub)); !ok {
				return false, "at " + w.c.pos(e.Instr.Pos()) + ": " + why
			}
		}
	}
	return n > 0, why
}

func (w *Walks) verAt(p *Part, e *ai.Event, set *ai.Term) *ai.Term { return p.vers[e][set] }

// marked finds a mark of a directory that precedes an event.
func (w *Walks) marked(p *Part, e *ai.Event, want func(m *ai.Event) bool) *ai.Event {
	for f := e.Prev; f != nil; f = f.Prev {
		if marks(f) && (p.set(f) || !p.rec) && want(f) {
			return f
		}
	}
	return nil
}

// set reports whether the set that an event changes is one of the arguments.
func (p *Part) set(e *ai.Event) bool {
	r := false
	for _, a := range p.args {
		argLeaves(a, func(t *ai.Term) { r = r || t == e.Args[0] })
	}
	return r
}

// entered decides that a directory is marked, by its reader or by the caller of
// that, before it is read.
func (w *Walks) entered(p *Part, e *ai.Event, o, i *ai.Term, where, pos string) {
	c := w.c
	own := w.marked(p, e, func(m *ai.Event) bool { return leavesIn(m.Args[1], o, i) })
	if own != nil {
		w.first(p, own, where, pos)
		return
	}
	n := 0
	for _, q := range w.v.parts {
		for _, f := range q.evs {
			if callee(f) != p.fn {
				continue
			}
			n++
			sub := map[*ai.Term]*ai.Term{}
			for k, a := range p.args {
				pairLeaves(a, f.Args[k], sub)
			}
			o2, i2 := ai.Subst(o, sub), ai.Subst(i, sub)
			m := w.marked(q, f, func(m *ai.Event) bool { return leavesIn(m.Args[1], o2, i2) })
			for g := f.Prev; m != nil && g != m; g = g.Prev {
				if g.Kind == "recurse" || g.Kind == "join" {
					m = nil
					break
				}
			}
			c.Ob(m != nil, "marked", where, pos, "the directory is not marked as visited before its entries are read")
			if m != nil {
				w.first(q, m, where, pos)
			}
		}
	}
	c.Ob(n > 0, "marked", where, pos, "the directory is not marked as visited before its entries are read")
}

// first decides that a mark is not there yet when it is made.
func (w *Walks) first(p *Part, m *ai.Event, where, pos string) {
	ok, why := w.fresh(p, m.Facts, m.Args[0], w.verAt(p, m, m.Args[0]), m.Args[1])
	w.c.Ob(ok, "once", where, pos, "%s", why)
	if s := w.set[p]; s != nil && s != m.Args[0] {
		w.c.Ob(!p.rec, "same", fnShort(p.fn), pos, "directories are marked in different sets")
	}
	w.set[p] = m.Args[0]
}

func (c *Check) walks(v *View) {
	w := &Walks{c: c, v: v, parts: map[*ssa.Function]*Part{}, set: map[*Part]*ai.Term{}, asked: map[string]bool{}}
	for _, p := range v.parts {
		if p.rec {
			w.parts[p.fn] = p
		}
	}
	type edge struct{ from, to *Part }
	open := map[edge]*ai.Event{}
	visits := 0
	for _, p := range v.parts {
		if !p.rec {
			continue
		}
		// a directory is listed after it was marked
		for _, e := range p.all {
			o, i, ok := dirRange(e)
			if !ok {
				continue
			}
			visits++
			w.entered(p, e, o, i, fnShort(p.fn)+" lists a directory", c.pos(e.Instr.Pos()))
		}
		for _, e := range p.evs {
			q := w.parts[callee(e)]
			m := w.marked(p, e, func(m *ai.Event) bool { return true })
			ok := false
			if m != nil {
				ok, _ = w.fresh(p, m.Facts, m.Args[0], w.verAt(p, m, m.Args[0]), m.Args[1])
			}
			if !ok {
				open[edge{p, q}] = e
			}
		}
	}
	// sets are handed on
	for again := true; again; {
		again = false
		for _, p := range v.parts {
			for _, e := range p.evs {
				q := w.parts[callee(e)]
				if p.rec && w.set[p] == nil && w.set[q] != nil {
					w.set[p] = w.handed(q, e)
					again = w.set[p] != nil
				}
			}
		}
	}
	for _, p := range v.parts {
		if !p.rec {
			continue
		}
		for _, e := range p.evs {
			q := w.parts[callee(e)]
			ok := w.set[q] != nil && w.handed(q, e) == w.set[p]
			c.Ob(ok, "same", fnShort(p.fn)+" calls "+fnShort(q.fn), c.pos(e.Instr.Pos()), "the directories below are visited with another set of visited directories")
		}
		// what is in the set stays there
		for _, e := range p.all {
			switch e.Kind {
			case "mapdelete", "mapclear":
				c.Ob(!p.set(e), "kept", fnShort(p.fn), c.pos(e.Instr.Pos()), "visited directories are forgotten")
			case "mapupdate":
				if p.set(e) {
					c.Ob(marks(e), "kept", fnShort(p.fn), c.pos(e.Instr.Pos()), "a visited directory may be marked as not visited")
				}
			}
		}
	}
	// no cycle of calls without a mark
	var cyc func(p, at *Part, seen map[*Part]bool) bool
	cyc = func(p, at *Part, seen map[*Part]bool) bool {
		for e := range open {
			if e.from == at && e.to != nil {
				if e.to == p {
					return true
				}
				if !seen[e.to] {
					seen[e.to] = true
					if cyc(p, e.to, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, p := range v.parts {
		if p.rec {
			c.Ob(!cyc(p, p, map[*Part]bool{}), "ends", fnShort(p.fn), c.pos(p.fn.Pos()), "the function may call itself again without having visited another directory")
		}
	}
	// loops end
	for _, p := range v.parts {
		for _, l := range p.loops {
			c.Ob(c.loopEnds(l), "ends", loopWhere(l), c.loopPos(l), "no reason found why the loop ends")
		}
	}
	c.Counts["visits"] += visits
	c.Counts["walks"] += len(w.parts)
}

// handed is the set of visited directories that a call hands on.
func (w *Walks) handed(q *Part, e *ai.Event) *ai.Term {
	sub := map[*ai.Term]*ai.Term{}
	for i, f := range q.args {
		pairLeaves(f, e.Args[i], sub)
	}
	return ai.Subst(w.set[q], sub)
}

func checkC15(c *Check) {
	c.Rules = map[string]string{
		"marked": "a recursive function marks the directory it is called for before it reads its entries",
		"once":   "a directory is marked only if it was not marked before",
		"same":   "the same set of visited directories is used for everything below a directory",
		"kept":   "a directory that was visited stays marked",
		"ends":   "no function calls itself again without visiting another directory, and every loop of the traversal ends",
	}
	n := 0
	for _, v := range c.views() {
		c.walks(v)
	}
	n = c.Counts["walks"]
	c.Ob(n >= 2, "marked", "ls and recover", "", "no recursive traversal found in ls or recover")
}
