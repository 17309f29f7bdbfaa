package main

import (
	"strings"

	"verif/checker/ai"
)

func init() {
	checks["C33"] = checkC33
}

// What is done for an entry is attached to the entry itself, so that ways
// through an iteration that do different things for it are told apart.
const (
	didMake   = "entry made"    // an attempt to create it
	didEnter  = "entry entered" // a directory is worked on recursively
	didGive   = "entry given"   // it is given to a function that is analysed on its own
	didWarn   = "entry warned"  // a message on standard error names it
	didShow   = "entry shown"   // how often its name is printed
	didKeep   = "entry kept"    // it is put into a slice or a map
	didProbe  = "entry probed"  // the error of looking for what is there already
	entryData = "pkg/btrfs.DirItem."
)

var allDid = []string{didMake, didEnter, didGive, didWarn, didShow, didKeep, didProbe}

// Entries follows what is done for the entries of directories and for
// subvolumes.
type Entries struct {
	c       *Check
	touched map[*ai.Exec]map[*ai.Term]map[string]bool // what is done for an entry
	events  map[*ai.Exec][]entryEvent
}

type entryEvent struct {
	e    *ai.Event
	item *ai.Term
	did  string
}

// entryKind is the type of the keys of the entries: of a directory (by index
// or hash) or of the tree of tree roots.
func entryKind(entry *ai.Term) uint64 {
	i := itemOf(entry)
	if i == nil {
		return 0
	}
	b := i.A[0]
	if len(b.A) != 8 || b.A[2].Op != ai.OInt {
		return 0
	}
	switch k := b.A[2].K; k {
	case 84, 96, 132:
		return k
	}
	return 0
}

// entriesIn calls f for every entry that a value depends on, given by its data,
// or by its item if it is of the tree of tree roots.
func entriesIn(t *ai.Term, f func(entry *ai.Term)) {
	t.Walk(func(u *ai.Term) bool {
		if u.Op != ai.OApp {
			return true
		}
		switch {
		case u.S == itemData:
			if k := entryKind(u); k == 84 || k == 96 {
				f(u)
			}
		case u.S == "rngid" || u.S == "rngoff":
			if i := ai.App("rngitem", 0, u.A[0], u.A[1]); entryKind(i) == 132 {
				f(i)
			}
		case strings.HasPrefix(u.S, entryData) && len(u.A) == 1 && u.A[0].Op == ai.OApp && u.A[0].S == "v":
			f(u.A[0]) // an entry given to a function
		}
		return true
	})
}

// itemOf is the item of an entry that is read from a range.
func itemOf(entry *ai.Term) *ai.Term {
	if entry.Op == ai.OApp && entry.S == itemData {
		entry = entry.A[0]
	}
	if entry.Op == ai.OApp && entry.S == "rngitem" && len(entry.A) == 2 {
		return entry
	}
	return nil
}

// names reports whether a value shows the name of an entry.
func namesEntry(t, item *ai.Term) bool {
	r := false
	t.Walk(func(u *ai.Term) bool {
		if u.Op == ai.OApp && u.S == entryData+"Name" && u.A[0] == item {
			r = true
		}
		if u.Op == ai.OApp && u.S == "rngid" && item.S == "rngitem" && u.A[0] == item.A[0] && u.A[1] == item.A[1] {
			r = true
		}
		return !r
	})
	return r
}

func (n *Entries) note(x *ai.Exec, e *ai.Event) {
	if e.St == nil {
		return
	}
	set := func(did string, v *ai.Term, ts []*ai.Term, named bool) {
		seen := map[*ai.Term]bool{}
		for _, t := range ts {
			entriesIn(t, func(i *ai.Term) {
				if seen[i] || named && !namesEntry(t, i) {
					return
				}
				seen[i] = true
				val := v
				if did == didShow {
					val = ai.I64(1)
					if old := e.St.Ghost(i, did); old != nil {
						val = ai.I64(2)
					}
				}
				e.St.SetGhost(i, did, val)
				m := n.touched[x]
				if m == nil {
					m = map[*ai.Term]map[string]bool{}
					n.touched[x] = m
				}
				if m[i] == nil {
					m[i] = map[string]bool{}
				}
				m[i][did] = true
				n.events[x] = append(n.events[x], entryEvent{e, i, did})
			})
		}
	}
	one := ai.I64(1)
	switch {
	case e.Kind == "recurse":
		for _, a := range e.Args {
			if a.Op == ai.OSlice {
				set(didGive, one, []*ai.Term{a}, false)
			} else {
				set(didEnter, one, []*ai.Term{a}, false)
			}
		}
	case e.Kind == "append":
		set(didKeep, one, appended(e), false)
	case isMapUpdate(e):
		set(didKeep, one, e.Args[2:3], false)
	case evIs(e, "os.Lstat", "os.Stat") && e.Res != nil && e.Res.Op == ai.OTuple:
		set(didProbe, e.Res.A[1], e.Args, false)
	case isPrint(e):
		var ts []*ai.Term
		for _, a := range e.Args[1:] {
			if a.Op == ai.OSlice {
				ts = append(ts, x.Unlist(e.St, a, anyType)...)
			} else {
				ts = append(ts, a)
			}
		}
		if toStderr(e) {
			set(didWarn, one, ts, true)
		} else {
			set(didShow, one, ts, true)
		}
	default:
		f := n.c.W.effectOf(e)
		if f != nil && (f.kind == "create" || f.kind == "mkdir" || f.kind == "symlink") {
			set(didMake, one, f.paths, false)
		}
	}
}

// follow runs an analysis with the entries followed.
func (n *Entries) follow(run func()) {
	n.c.onEvent = n.note
	run()
	n.c.onEvent = nil
}

// entryLoop is a loop over entries.
type entryLoop struct {
	p    *Part
	l    *ai.LoopRun
	item *ai.Term // the entry of an iteration
	did  map[string]bool
	own  bool // the position in the range itself, not in a part of it
}

// pick reduces a position to the number it is a function of: what is sorted or
// selected before is still visited position by position.
func pick(l *ai.LoopRun, pos *ai.Term) (*ai.Term, bool) {
	whole := true
	for pos.Op == ai.OApp && len(pos.A) >= 2 {
		switch {
		case pos.S == "perm" && len(pos.A) == 2:
			pos = pos.A[1]
		case pos.S == "inst:h" && len(pos.A) == 3:
			pos = pos.A[1]
			whole = false
		default:
			return nil, false
		}
	}
	return pos, whole
}

// loops finds the loops of a function over entries.
func (n *Entries) loops(p *Part) []*entryLoop {
	var r []*entryLoop
	for _, l := range p.loops {
		by := map[*ai.Term]*entryLoop{}
		var order []*ai.Term
		for _, b := range l.Backs {
			for _, k := range allDid {
				b.Path.St.Ghosts(k, func(i, _ *ai.Term) {
					it := itemOf(i)
					if it == nil {
						return
					}
					at, _ := pick(l, it.A[1])
					if at == nil {
						at = it.A[1]
					}
					for _, s := range l.Syms {
						if !termContains(at, s) {
							continue
						}
						if by[i] == nil {
							by[i] = &entryLoop{p: p, l: l, item: i, did: map[string]bool{}}
							order = append(order, i)
						}
						by[i].did[k] = true
					}
				})
			}
		}
		sortTerms(order)
		for _, i := range order {
			r = append(r, by[i])
		}
	}
	return r
}

func sortTerms(ts []*ai.Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].ID < ts[j-1].ID; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// processes reports whether something is done for the entries other than
// putting them aside.
func (q *entryLoop) processes() bool {
	return q.did[didMake] || q.did[didGive] || q.did[didEnter] || q.did[didShow]
}

// complete checks that a loop visits all of its entries, each once.
func (n *Entries) complete(q *entryLoop) {
	c, l := n.c, q.l
	where, pos := loopWhere(l), c.loopPos(l)
	at, whole := pick(l, itemOf(q.item).A[1])
	if !c.Ob(at != nil, "every", where, pos, "the entries are not visited position by position") {
		return
	}
	q.own = whole
	next := func(m map[*ai.Term]*ai.Term) *ai.Term { return ai.Subst(at, m) }
	inits := append([]map[*ai.Term]*ai.Term{l.Init}, l.MoreInit...)
	for _, m := range inits {
		c.Ob(next(m) == ai.I64(0), "every", where, pos, "the first entry is not the first of the directory")
	}
	for _, b := range l.Backs {
		if infeasible(b.Path.St) {
			continue
		}
		nx := next(b.Next)
		c.Ob(same(b.Path.St, nx, ai.AddK(at, 1)), "every", where, pos, "the next entry is not the one that follows")
	}
	end := n.bound(q, at)
	if !c.Ob(end != nil, "every", where, pos, "it is not known how many entries there are") {
		return
	}
	for _, e := range l.Exits {
		if infeasible(e) {
			continue
		}
		c.Ob(notHolds(e, ai.Lt(true, at, end)), "every", where, pos, "the loop may be left while there are more entries")
	}
	for _, o := range l.Outs {
		if infeasible(o.St) || o.Kind == "panic" {
			continue
		}
		c.Ob(notHolds(o.St, ai.Lt(true, at, end)), "every", where, pos, "%s while there may be more entries", map[string]string{"return": "the function returns", "exit": "the program ends"}[o.Kind])
	}
}

// bound is the number of entries of a loop.
func (n *Entries) bound(q *entryLoop, at *ai.Term) *ai.Term {
	if q.own {
		return ai.App("rngcount", 64, itemOf(q.item).A[0])
	}
	// the length of what was selected: it grows with every selection
	var r *ai.Term
	for _, m := range q.p.loops {
		for _, s := range m.Syms {
			if s.W != 64 || m.Init[s] != ai.I64(0) {
				continue
			}
			grows, sel := false, false
			for _, b := range m.Backs {
				nx := b.Next[s]
				kept := false
				b.Path.St.Ghosts(didKeep, func(i, _ *ai.Term) { it := itemOf(i); kept = kept || it != nil && it.A[0] == itemOf(q.item).A[0] })
				if nx != nil && same(b.Path.St, nx, ai.AddK(s, 1)) && kept {
					grows = true
				} else if nx != nil && nx != s || kept {
					sel = true
				}
			}
			if !grows || sel {
				continue
			}
			ok := false
			for _, b := range q.l.Backs {
				ok = holds(b.Path.St, ai.Lt(true, at, s))
				if !ok {
					break
				}
			}
			if ok {
				r = s
			}
		}
	}
	return r
}

// special reports whether an entry is known to be neither a file nor a
// directory or symbolic link.
func special(st *ai.State, item *ai.Term) bool {
	for _, k := range []int64{1, 2, 7} {
		if !notHolds(st, ai.Eq(ai.App(entryData+"Type", 8, item), ai.Int(8, uint64(k)))) {
			return false
		}
	}
	return notHolds(st, isSubvolEntry(item))
}

func isSubvolEntry(item *ai.Term) *ai.Term {
	return ai.Eq(ai.App(entryData+"Location.1", 8, item), ai.Int(8, 132))
}

func isKind(f func(l *ai.Term) bool, item *ai.Term, kinds ...int64) bool {
	for _, k := range kinds {
		if k == 132 && f(isSubvolEntry(item)) {
			return true
		}
		if k != 132 && f(ai.Eq(ai.App(entryData+"Type", 8, item), ai.Int(8, uint64(k)))) {
			return true
		}
	}
	return false
}

// kept reports whether something is in the place of an entry already and must
// not be replaced.
func (r *Recover) kept(p *Part, st *ai.State, item *ai.Term) bool {
	err := st.Ghost(item, didProbe)
	if err == nil || !holds(st, ai.Eq(err, ai.Nil)) {
		return false
	}
	found := false
	st.Facts.Each(func(f *ai.Term) bool {
		if f.Op == ai.ONot && (f.A[0] == r.clobber || r.l.has(p, "clobber", f.A[0])) {
			found = true
		}
		return !found
	})
	return found
}

// visited reports whether a directory is known to be in a set of the
// directories worked on.
func visitedEntry(st *ai.State, item *ai.Term) bool {
	r := false
	st.Facts.Each(func(f *ai.Term) bool {
		if f.Op == ai.OApp && (f.S == "mapget" || f.S == "maphas") && len(f.A) == 2 {
			entriesIn(f.A[1], func(i *ai.Term) { r = r || i == item })
		}
		return !r
	})
	return r
}

func checkC33(c *Check) {
	c.Rules = map[string]string{
		"every":   "a loop over the entries of a directory or the subvolumes starts at the first, goes on with the next, and ends only after the last",
		"handled": "every entry is restored or descended into, or it is announced that it is not; only special files, existing files without --clobber and directories worked on already are passed over",
		"kind":    "what an entry is restored as follows from its kind",
		"goes on": "the program does not end because one entry or directory failed",
		"all":     "a function that asks for the entries of a directory works on all of them, and recover works on all subvolumes",
		"listed":  "ls prints the name of every entry, and once",
		"deeper":  "ls descends into every directory if asked to",
		"view":    "the mounted view keeps every entry of a directory by its name and lists what it keeps, each once",
	}
	n := &Entries{c: c, touched: map[*ai.Exec]map[*ai.Term]map[string]bool{}, events: map[*ai.Exec][]entryEvent{}}
	var r *Recover
	n.follow(func() { r = c.recoverRun() })
	if r != nil {
		n.recovered(r)
	}
	var ls, mount *View
	var list *Listing
	n.follow(func() { list = c.lsRun() })
	if list != nil {
		ls = list.v
		n.listed(list, ls)
	}
	n.follow(func() { mount = c.mountView(nil) })
	if mount != nil {
		n.viewed(mount)
	}
}

// recovered checks what recover does.
func (n *Entries) recovered(r *Recover) {
	c := n.c
	dirs, subs := 0, 0
	for _, p := range r.v.parts {
		var work []*entryLoop
		for _, q := range n.loops(p) {
			n.complete(q)
			if q.processes() {
				work = append(work, q)
			}
			n.handled(r, p, q)
			if entryKind(q.item) == 132 {
				subs++
			} else if q.processes() {
				dirs++
			}
		}
		for _, f := range n.events[p.x] {
			where, pos := eventWhere(c, f.e)
			if entryKind(f.item) == 132 {
				continue
			}
			know := func(l *ai.Term) bool { return f.e.Facts.Holds(l) > 0 }
			switch f.did {
			case didEnter:
				c.Ob(isKind(know, f.item, 2, 132), "kind", where, pos, "an entry that may be no directory is worked on as one")
			case didMake:
				k := c.W.effectOf(f.e).kind
				c.Ob(isKind(know, f.item, map[string][]int64{"create": {1}, "symlink": {7}, "mkdir": {2, 132}}[k]...), "kind", where, pos, "an entry may be restored as what it is not (%s)", k)
			}
		}
		n.all(p, work)
		n.given(r, p)
		for _, o := range p.outs {
			if o.Kind != "exit" || infeasible(o.St) {
				continue
			}
			began := p.rec
			for e := o.St.Trace; e != nil && !began; e = e.Prev {
				began = e.Kind == "recurse"
			}
			c.Ob(!began, "goes on", fnShort(p.fn), c.pos(p.fn.Pos()), "the program may end while a directory is worked on")
		}
		if !p.rec {
			// every way to the end works on the subvolumes
			for _, o := range p.outs {
				if o.Kind != "return" || infeasible(o.St) {
					continue
				}
				ok := false
				for e := o.St.Trace; e != nil && !ok; e = e.Prev {
					for _, q := range work {
						ok = ok || e == q.l.Ev && entryKind(q.item) == 132
					}
				}
				c.Ob(ok, "all", fnShort(p.fn), c.pos(p.fn.Pos()), "recover may end without having worked on the subvolumes")
			}
		}
	}
	c.Ob(dirs > 0, "all", "recover", "", "no loop that works on the entries of a directory was found")
	c.Ob(subs > 0, "all", "recover", "", "no loop that works on the subvolumes was found")
}

// all checks that the entries that are asked for are worked on.
func (n *Entries) all(p *Part, work []*entryLoop) {
	c := n.c
	for _, o := range p.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		for e := o.St.Trace; e != nil; e = e.Prev {
			if e.Kind != "range" || len(e.Args[0].A) != 8 || !isInt(e.Args[0].A[2], 84) && !isInt(e.Args[0].A[2], 96) {
				continue
			}
			ok := holds(o.St, ai.Eq(ai.App("rngcount", 64, e.Args[0]), ai.I64(0)))
			for f := o.St.Trace; f != nil && f != e && !ok; f = f.Prev {
				for _, q := range work {
					ok = ok || f == q.l.Ev && itemOf(q.item).A[0] == e.Args[0] && q.own
				}
			}
			where, pos := eventWhere(c, e)
			c.Ob(ok, "all", where, pos, "the entries asked for may not be worked on")
		}
	}
}

// handled checks what is done for an entry in an iteration.
func (n *Entries) handled(r *Recover, p *Part, q *entryLoop) {
	for _, b := range q.l.Backs {
		if !infeasible(b.Path.St) {
			n.passed(r, p, q, b.Path.St, loopWhere(q.l), n.c.loopPos(q.l))
		}
	}
}

// given checks a function that works on an entry it is given.
func (n *Entries) given(r *Recover, p *Part) {
	for i, did := range n.touched[p.x] {
		if itemOf(i) != nil {
			continue
		}
		for _, o := range p.outs {
			if o.Kind == "return" && !infeasible(o.St) {
				n.passed(r, p, &entryLoop{p: p, item: i, did: did}, o.St, fnShort(p.fn), n.c.pos(p.fn.Pos()))
			}
		}
	}
}

// passed checks what was done for an entry in the end.
func (n *Entries) passed(r *Recover, p *Part, q *entryLoop, st *ai.State, where, pos string) {
	c := n.c
	did := func(k string) bool { return st.Ghost(q.item, k) != nil }
	ok := did(didGive) || did(didMake) || did(didEnter) || did(didWarn)
	if !q.processes() {
		ok = ok || did(didKeep)
	}
	if entryKind(q.item) == 132 {
		ok = ok || visitedEntry(st, q.item)
	} else {
		ok = ok || special(st, q.item) || r.kept(p, st, q.item)
	}
	c.Ob(ok, "handled", where, pos, "an entry may be passed over silently")
}

// Listing is the analysis of ls.
type Listing struct {
	v       *View
	l       *Labels
	recurse *ai.Term // the value of --recursive
}

func (c *Check) lsRun() *Listing {
	r := &Listing{}
	cmd := c.W.commands()["ls"]
	r.v = c.viewCommandWith("ls", func(p *Part, args []*ai.Term) {
		if pl, t := c.W.flagPlace(cmd, "recursive"); pl != nil {
			r.recurse = p.st.Load(pl, t)
		}
	})
	if r.v == nil {
		return nil
	}
	if r.recurse == nil {
		c.Fail("ls", "the recursive option was not found")
		return nil
	}
	r.l = r.v.labels()
	r.l.infer("recursive", func(p *Part, e *ai.Event, t *ai.Term) bool {
		return t.True() || !p.rec && t == r.recurse || r.l.has(p, "recursive", t)
	})
	return r
}

// listed checks what ls prints.
func (n *Entries) listed(r *Listing, v *View) {
	c := n.c
	shows := 0
	for _, p := range v.parts {
		qs := n.loops(p)
		var work []*entryLoop
		for _, q := range qs {
			n.complete(q)
			if q.own && q.did[didShow] {
				work = append(work, q)
			}
		}
		down := false
		for _, q := range qs {
			down = down || q.did[didEnter]
			where, pos := loopWhere(q.l), c.loopPos(q.l)
			for _, b := range q.l.Backs {
				st := b.Path.St
				if infeasible(st) {
					continue
				}
				did := func(k string) *ai.Term { return st.Ghost(q.item, k) }
				if q.own && q.did[didShow] {
					shows++
					s := did(didShow)
					c.Ob(s != nil, "listed", where, pos, "the name of an entry may not be printed")
					c.Ob(s == nil || s == ai.I64(1), "listed", where, pos, "an entry may be printed more than once")
				}
				if !q.did[didKeep] && !q.did[didEnter] {
					continue
				}
				no := func(l *ai.Term) bool { return notHolds(st, l) }
				deep := did(didKeep) != nil || did(didEnter) != nil || visitedEntry(st, q.item) || isKind(no, q.item, 2)
				if !deep {
					st.Facts.Each(func(f *ai.Term) bool {
						deep = deep || f.Op == ai.ONot && (!p.rec && f.A[0] == r.recurse || r.l.has(p, "recursive", f.A[0]))
						return !deep
					})
				}
				c.Ob(deep, "deeper", where, pos, "a directory may not be descended into")
			}
		}
		if len(work) > 0 {
			c.Ob(down, "deeper", fnShort(p.fn), c.pos(p.fn.Pos()), "directories are never descended into")
		}
		n.all(p, work)
	}
	c.Ob(shows > 0, "listed", "ls", "", "no loop that prints the entries of a directory was found")
}

// viewed checks what the mounted view lists.
func (n *Entries) viewed(v *View) {
	c := n.c
	lists := 0
	for _, p := range v.parts {
		var fill []*entryLoop
		for _, q := range n.loops(p) {
			where, pos := loopWhere(q.l), c.loopPos(q.l)
			if !q.did[didKeep] {
				continue
			}
			n.complete(q)
			fill = append(fill, q)
			for _, b := range q.l.Backs {
				if !infeasible(b.Path.St) {
					c.Ob(b.Path.St.Ghost(q.item, didKeep) != nil, "view", where, pos, "an entry may not be kept")
				}
			}
		}
		for _, f := range n.events[p.x] {
			if f.did == didKeep && isMapUpdate(f.e) {
				where, pos := eventWhere(c, f.e)
				c.Ob(f.e.Args[1].Op == ai.OApp && f.e.Args[1].S == entryData+"Name" && f.e.Args[1].A[0] == f.item, "view", where, pos, "an entry is kept by something other than its name")
			}
		}
		for _, e := range p.all {
			if p.handler && (e.Kind == "mapdelete" || e.Kind == "mapclear") {
				where, pos := eventWhere(c, e)
				c.Ob(false, "view", where, pos, "entries are removed again")
			}
		}
		if !p.handler || p.fn.Name() != "OpenDir" {
			continue
		}
		for _, o := range p.outs {
			if o.Kind != "return" || infeasible(o.St) || o.Ret == nil || o.Ret.Op != ai.OTuple || len(o.Ret.A) != 2 || !holds(o.St, ai.Eq(o.Ret.A[1], ai.Int(o.Ret.A[1].W, 0))) {
				continue
			}
			where, pos := fnShort(p.fn), c.pos(p.fn.Pos())
			// entries whose listing is not read from the database
			asked := false
			for e := o.St.Trace; e != nil; e = e.Prev {
				asked = asked || e.Kind == "mapnext" || e.Kind == "mapend" || e.Kind == "range" || e.Kind == "loop"
			}
			if !asked {
				continue
			}
			lists++
			c.Ob(n.wholeList(p, o, fill), "view", where, pos, "what is listed may not be all entries")
		}
	}
	c.Ob(lists > 0, "view", "mount", "", "no listing of directories was found")
}

// wholeList decides that a listing has one element for each entry kept, after
// all were kept.
func (n *Entries) wholeList(p *Part, o ai.Outcome, fill []*entryLoop) bool {
	s := o.Ret.A[0]
	if s.Op != ai.OSlice {
		return false
	}
	for _, l := range p.loops {
		in := false
		for e := o.St.Trace; e != nil && !in; e = e.Prev {
			in = e == l.Ev
		}
		if !in {
			continue
		}
		var m *ai.Term
		ok := len(l.Backs) > 0
		for _, b := range l.Backs {
			next, app := 0, 0
			for _, e := range since(b.Path.St, l.Ev) {
				switch e.Kind {
				case "mapnext":
					next++
					m = e.Args[0]
				case "append":
					app++
				case "join":
					ok = false
				}
			}
			ok = ok && next == 1 && app == 1
		}
		if !ok || m == nil {
			continue
		}
		cnt := ai.App("nat:maplen", 64, o.St.MapVer(m))
		if !holds(o.St, ai.Eq(s.A[2], cnt)) {
			continue
		}
		// all entries are there: they were put in just now, or the map is not empty
		if holds(o.St, ai.Lt(true, ai.I64(0), cnt)) {
			return true
		}
		for e := l.Ev.Prev; e != nil; e = e.Prev {
			for _, q := range fill {
				if e == q.l.Ev {
					return true
				}
			}
		}
	}
	return false
}
