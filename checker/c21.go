package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C21"] = checkC21 }

const (
	inodeAcc   = "pkg/btrfs.InodeItem."
	extentAcc  = "pkg/btrfs.FileExtentItem."
	fuseAttr   = "github.com/hanwen/go-fuse/v2/fuse.Attr"
	attrShown  = "attributes shown"
	nameShown  = "name shown"
	textShown  = "some text shown"
	headOf     = "its own entries listed"
	inodeSize  = 160
	xattrType  = 24
	extentType = 108
)

// attrFields tells what each reported attribute is made of.
var attrFields = map[string]string{
	"Size": "Size", "Mode": "Mode", "Nlink": "Nlink", "Owner.Uid": "UID", "Owner.Gid": "GID", "Rdev": "low Rdev",
	"Atime": "seconds Atime", "Mtime": "seconds Mtime", "Ctime": "seconds Ctime",
	"Atimensec": "nanoseconds Atime", "Mtimensec": "nanoseconds Mtime", "Ctimensec": "nanoseconds Ctime",
}

// attrOf tells which attribute of which inode item a value is.
func attrOf(t *ai.Term) (string, *ai.Term) {
	if t == nil {
		return "", nil
	}
	switch {
	case t.Op == ai.OApp && strings.HasPrefix(t.S, inodeAcc) && len(t.A) == 1:
		return strings.TrimPrefix(t.S, inodeAcc), t.A[0]
	case t.Op == ai.OApp && t.S == "(time.Time).Unix" && len(t.A) == 1:
		if n, v := attrOf(t.A[0]); v != nil {
			return "seconds " + n, v
		}
	case t.Op == ai.OApp && t.S == "(time.Time).Nanosecond" && len(t.A) == 1:
		if n, v := attrOf(t.A[0]); v != nil {
			return "nanoseconds " + n, v
		}
	case strings.HasPrefix(t.String(), "trunc32(") && len(t.A) == 1:
		n, v := attrOf(t.A[0])
		switch {
		case v == nil:
		case n == "Rdev":
			return "low Rdev", v
		case strings.HasPrefix(n, "nanoseconds "):
			return n, v
		}
	}
	return "", nil
}

// inodeOf is the object that the data of an inode item belongs to: its
// owner and number.
func inodeOf(v *ai.Term) []*ai.Term {
	if v == nil || v.Op != ai.OApp || v.S != itemData || len(v.A) != 1 {
		return nil
	}
	i := v.A[0]
	if i.Op != ai.OApp || i.S != "item" || len(i.A) != 5 || !isInt(i.A[2], 1) || !isInt(i.A[4], 0) {
		return nil
	}
	return []*ai.Term{i.A[1], i.A[3]}
}

// missing reports whether there is known to be no complete inode item.
func missing(st *ai.State, id []*ai.Term) bool {
	ok := false
	st.Facts.Each(func(f *ai.Term) bool {
		f.Walk(func(u *ai.Term) bool {
			if j := inodeOf(u); j != nil && sameObject(st, j, id) {
				n := ai.SliceLen(u)
				if n != nil && holds(st, ai.Lt(true, n, ai.I64(inodeSize))) {
					ok = true
				}
			}
			return !ok
		})
		return !ok
	})
	return ok
}

// Attrs decides what attributes are reported.
type Attrs struct {
	c  *Check
	id map[string][]*ai.Term // by type of object: what identifies it
	of map[string]*ai.Term   // and the object this was found for
	n  int
}

// loadAs evaluates what was found for one object for another one.
func loadAs(st *ai.State, t, from, to *ai.Term) *ai.Term {
	if t == from {
		return to
	}
	if t.Op != ai.OApp || !strings.HasPrefix(t.S, "*.") || len(t.A) != 1 {
		return nil
	}
	b := loadAs(st, t.A[0], from, to)
	if b == nil {
		return nil
	}
	p := b
	for _, s := range strings.Split(t.S[2:], ".") {
		i := 0
		if _, err := fmt.Sscan(s, &i); err != nil {
			return nil
		}
		p = ai.FieldAddr(p, i)
	}
	return st.Load(p, t.T)
}

// identity is what identifies an object.
func (a *Attrs) identity(st *ai.State, typ types.Type, obj *ai.Term) []*ai.Term {
	n := types.TypeString(typ, nil)
	if a.id[n] == nil {
		return nil
	}
	var r []*ai.Term
	for _, t := range a.id[n] {
		u := loadAs(st, t, a.of[n], obj)
		if u == nil {
			return nil
		}
		r = append(r, u)
	}
	return r
}

func sameObject(st *ai.State, x, y []*ai.Term) bool {
	for i := range x {
		if !same(st, x[i], y[i]) {
			return false
		}
	}
	return len(x) == len(y)
}

// times describes what setting the times of attributes does.
func (a *Attrs) times(x *ai.Exec) {
	x.Models["(*"+fuseAttr+").SetTimes"] = func(cl *ai.Call) []ai.Outcome {
		t := deref1(cl.Sig.Recv().Type())
		s := t.Underlying().(*types.Struct)
		for i, n := range []string{"A", "M", "C"} {
			p := cl.Args[i+1]
			if same(cl.St, p, ai.Nil) {
				continue
			}
			v := cl.St.Load(p, deref1(cl.Sig.Params().At(i).Type()))
			j, jt := fieldNamed(s, n+"time")
			k, kt := fieldNamed(s, n+"timensec")
			sec, nano := ai.App("(time.Time).Unix", 64, v), ai.Trunc(32, ai.App("(time.Time).Nanosecond", 64, v))
			if !notHolds(cl.St, ai.Eq(p, ai.Nil)) && p.Op != ai.OObj {
				sec, nano = x.Val("time", jt, p), x.Val("nano", kt, p)
			}
			cl.St.Store(ai.FieldAddr(cl.Args[0], j), sec, jt)
			cl.St.Store(ai.FieldAddr(cl.Args[0], k), nano, kt)
		}
		return cl.Ret(ai.Tuple())
	}
}

// fields calls f for all attributes of a structure in memory.
func (a *Attrs) fields(st *ai.State, p *ai.Term, t types.Type, f func(name, path string, v *ai.Term)) {
	var walk func(p *ai.Term, t types.Type, pre, path string)
	walk = func(p *ai.Term, t types.Type, pre, path string) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			if attrFields[pre] != "" {
				f(pre, path, st.Load(p, t))
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			n, q := s.Field(i).Name(), fmt.Sprint(i)
			if pre != "" {
				n, q = pre+"."+n, path+"."+q
			}
			walk(ai.FieldAddr(p, i), s.Field(i).Type(), n, q)
		}
	}
	walk(p, t, "", "")
}

// proper checks that attributes in memory are those of an object. cached are
// the attributes that the object keeps.
func (a *Attrs) proper(rule, where, pos string, st *ai.State, p *ai.Term, t types.Type, id []*ai.Term, cached *ai.Term) {
	n := 0
	a.fields(st, p, t, func(name, path string, v *ai.Term) {
		n++
		k, d := attrOf(v)
		ok := k == attrFields[name]
		if ok {
			j := inodeOf(d)
			ok = j != nil && sameObject(st, j, id)
		} else if cached != nil {
			// the same field of what is kept
			ok = v.Op == ai.OApp && v.S == "*."+path && len(v.A) == 1 && v.A[0] == cached
		}
		a.c.Ob(ok, rule, where+" "+name, pos, "%s is not that of the inode item of the object", name)
	})
	a.c.Ob(n == len(attrFields), rule, where, pos, "%d attributes were found", n)
	a.n += n
}

// succeeds reports whether a handler may end with success.
func succeeds(o ai.Outcome) bool {
	if o.Kind != "return" || infeasible(o.St) || o.Ret == nil {
		return false
	}
	s := errOf(o.Ret)
	return s.W == 0 || !notHolds(o.St, ai.Eq(s, ai.Int(s.W, 0)))
}

func isAttrPtr(t types.Type) bool { return types.TypeString(t, nil) == "*"+fuseAttr }

func checkC21(c *Check) {
	c.Rules = map[string]string{
		"attributes": "every attribute that is reported is the one of that name in the inode item of the object",
		"kept":       "the attributes that an object keeps are those of its inode item",
		"object":     "what identifies an object does not change, and what looking up or opening gives is the object that is reported on",
		"xattr":      "an extended attribute is found by its exact name in the items of the object, and its own value is returned",
		"names":      "all names of extended attributes of the object are listed",
		"link":       "the target of a link is the inline content of its own extent item",
		"listing":    "ls shows mode, link count, owner, group, size and change time, in this order, of the inode item of the entry whose name it shows, if there is one",
		"mode":       "the permissions that ls shows spell out the bits of the mode",
	}
	c.Assume = append(c.Assume, "package time is right; the accessors of items read the field they are named after (C06)")
	a := &Attrs{c: c, id: map[string][]*ai.Term{}, of: map[string]*ai.Term{}}
	children := map[*ai.Exec][]*ai.Event{}
	c.onEvent = func(x *ai.Exec, e *ai.Event) {
		if e.Kind == "call" && evIs(e, "NewChild") {
			children[x] = append(children[x], e)
		}
	}
	stores := map[*ai.Exec][]*ai.Event{}
	v := c.mountView(func(x *ai.Exec) {
		a.times(x)
		x.OnMem = func(e *ai.Event) {
			if b, _, _ := ai.SplitAddr(e.Args[0]); e.Kind == "store" && b != nil && b.T != nil && isAttrPtr(b.T) {
				stores[x] = append(stores[x], e)
			}
		}
	})
	c.onEvent = nil
	if v != nil {
		for _, p := range v.parts {
			a.find(p)
		}
		for _, p := range v.parts {
			if p.handler {
				a.handler(p, children[p.x])
				for _, e := range stores[p.x] {
					b, _, _ := ai.SplitAddr(e.Args[0])
					ok := b.Op == ai.OObj
					for _, q := range p.args {
						ok = ok || q == b
					}
					w, pos := eventWhere(c, e)
					c.Ob(ok, "kept", w+" store", pos, "the attributes that are kept are changed")
				}
			}
		}
		c.Ob(len(a.id) > 0 && a.n > 0, "attributes", "mount", "", "no attributes are reported")
	}
	a.listing()
}

func recvType(f *ssa.Function) types.Type {
	if f == nil || f.Signature.Recv() == nil {
		return nil
	}
	return deref1(f.Signature.Recv().Type())
}

// find learns what identifies the objects of a type: what its attributes are
// looked up by.
func (a *Attrs) find(p *Part) {
	t := recvType(p.fn)
	if t == nil || !p.handler {
		return
	}
	n := types.TypeString(t, nil)
	for _, e := range p.all {
		if e.Kind != "find" || a.id[n] != nil {
			continue
		}
		id := inodeOf(ai.App(itemData, 0, e.Args[0]))
		if id == nil {
			continue
		}
		own := true
		for _, u := range id {
			own = own && loadsFrom(u, p.args[0])
		}
		if own {
			a.id[n], a.of[n] = id, p.args[0]
		}
	}
}

// loadsFrom reports whether a value is a field of an object, or of what such a
// field refers to.
func loadsFrom(t, o *ai.Term) bool {
	for t != o {
		if t.Op != ai.OApp || !strings.HasPrefix(t.S, "*.") || len(t.A) != 1 {
			return false
		}
		t = t.A[0]
	}
	return true
}

func (a *Attrs) handler(p *Part, made []*ai.Event) {
	c := a.c
	typ := recvType(p.fn)
	if typ == nil || a.id[types.TypeString(typ, nil)] == nil {
		return
	}
	where, pos := fnShort(p.fn), c.pos(p.fn.Pos())
	recv := p.args[0]
	var first []*ai.Term
	for _, t := range a.id[types.TypeString(typ, nil)] {
		first = append(first, ai.Subst(t, map[*ai.Term]*ai.Term{a.of[types.TypeString(typ, nil)]: recv}))
	}
	for _, o := range p.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		st := o.St
		id := a.identity(st, typ, recv)
		if !c.Ob(id != nil && sameObject(st, id, first), "object", where, pos, "what identifies the object may change") {
			continue
		}
		kept := a.kept(p, where, pos, st, typ, recv, id)
		// new objects
		obj, oid := recv, id
		for _, e := range made {
			if !traceHas(st, e) || len(e.Args) < 4 {
				continue
			}
			n := e.Args[3]
			if n.Op != ai.OIface {
				continue
			}
			nt := deref1(n.X.(types.Type))
			i := a.identity(st, nt, n.A[0])
			if i == nil {
				continue
			}
			kept = a.kept(p, where, pos, st, nt, n.A[0], i)
			obj, oid = n.A[0], i
		}
		if !succeeds(o) {
			continue
		}
		for i, q := range p.fn.Params {
			if i > 0 && isAttrPtr(q.Type()) {
				if obj == recv && missing(st, id) {
					c.Counts["reports without an inode item"]++
					continue // there is nothing to report
				}
				a.proper("attributes", where, pos, st, p.args[i], deref1(q.Type()), oid, kept)
			}
		}
		// opened files
		if o.Ret.Op == ai.OTuple && o.Ret.A[0].Op == ai.OIface {
			f := o.Ret.A[0]
			ft := deref1(f.X.(types.Type))
			if i := a.identity(st, ft, f.A[0]); i != nil {
				c.Ob(sameObject(st, i, id), "object", where, pos, "the opened file is another object")
			}
		}
		switch p.fn.Name() {
		case "GetXAttr":
			a.xattr(p, o, id)
		case "ListXAttr":
			a.names(p, o, id)
		case "Readlink":
			a.link(p, o, id)
		}
	}
	if n := p.fn.Name(); n == "GetXAttr" || n == "ListXAttr" {
		a.all(p, n == "GetXAttr")
	}
}

// kept checks the attributes that an object keeps.
func (a *Attrs) kept(p *Part, where, pos string, st *ai.State, typ types.Type, obj *ai.Term, id []*ai.Term) *ai.Term {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if !isAttrPtr(s.Field(i).Type()) {
			continue
		}
		v := st.Load(ai.FieldAddr(obj, i), s.Field(i).Type())
		if same(st, v, ai.Nil) {
			return nil
		}
		if v.Op != ai.OSym && !loadsFrom(v, obj) {
			a.proper("kept", where, pos, st, v, deref1(s.Field(i).Type()), id, nil)
			return nil
		}
		return v
	}
	return nil
}

// ofObject reports whether an item is one of an object.
func ofObject(st *ai.State, i *ai.Term, typ uint64, id []*ai.Term, first bool) bool {
	switch {
	case i.Op == ai.OApp && i.S == "item" && len(i.A) == 5:
		return isInt(i.A[2], typ) && sameObject(st, []*ai.Term{i.A[1], i.A[3]}, id)
	case i.Op == ai.OApp && i.S == "rngitem" && len(i.A[0].A) == 8:
		b := i.A[0]
		return isInt(b.A[2], typ) && isInt(b.A[5], typ) && b.A[6] == b.A[3] && sameObject(st, []*ai.Term{b.A[1], b.A[3]}, id) && (!first || isInt(i.A[1], 0))
	}
	return false
}

// dataOf is the item that a value is an accessor of.
func dataOf(t *ai.Term, acc string) *ai.Term {
	if t == nil || t.Op != ai.OApp || t.S != acc || len(t.A) != 1 {
		return nil
	}
	d := t.A[0]
	if d.Op != ai.OApp || d.S != itemData || len(d.A) != 1 {
		return nil
	}
	return d.A[0]
}

// text is the string that a slice of bytes holds.
func text(st *ai.State, t *ai.Term) *ai.Term {
	if t.Op != ai.OSlice {
		return nil
	}
	return st.StrOf(t)
}

func (a *Attrs) xattr(p *Part, o ai.Outcome, id []*ai.Term) {
	where, pos := fnShort(p.fn), a.c.pos(p.fn.Pos())
	i := dataOf(text(o.St, o.Ret.A[0]), entryData+"Data")
	if !a.c.Ob(i != nil && ofObject(o.St, i, xattrType, id, false), "xattr", where, pos, "what is returned is not the value of an extended attribute of the object") {
		return
	}
	n := ai.App(entryData+"Name", 0, ai.App(itemData, 0, i))
	a.c.Ob(holds(o.St, ai.Eq(n, p.args[1])), "xattr", where+" name", pos, "the value may be that of an attribute of another name")
}

// xattrLoop finds the item that an iteration of a loop is about.
func (a *Attrs) xattrLoop(l *ai.LoopRun) (item *ai.Term) {
	for _, b := range l.Backs {
		b.Path.St.Facts.Each(func(f *ai.Term) bool {
			f.Walk(func(u *ai.Term) bool {
				if u.Op == ai.OApp && u.S == "rngitem" && len(u.A) == 2 && len(u.A[0].A) == 8 && isInt(u.A[0].A[2], xattrType) {
					for _, s := range l.Syms {
						if u.A[1] == s {
							item = u
						}
					}
				}
				return true
			})
			return true
		})
		for _, e := range since(b.Path.St, l.Ev) {
			if e.Kind != "append" {
				continue
			}
			for _, t := range appended(e) {
				if i := dataOf(t, entryData+"Name"); i != nil && i.S == "rngitem" && isInt(i.A[0].A[2], xattrType) {
					at := i.A[1]
					for _, s := range l.Syms {
						if termContains(at, s) {
							item = i
						}
					}
				}
			}
		}
	}
	return
}

// all checks that all extended attributes are looked at.
func (a *Attrs) all(p *Part, match bool) {
	c := a.c
	rule := "names"
	if match {
		rule = "xattr"
	}
	n := 0
	for _, l := range p.loops {
		it := a.xattrLoop(l)
		if it == nil {
			continue
		}
		n++
		where, pos := loopWhere(l), c.loopPos(l)
		at, cnt := it.A[1], ai.App("rngcount", 64, it.A[0])
		name := ai.App(entryData+"Name", 0, ai.App(itemData, 0, it))
		for _, m := range append([]map[*ai.Term]*ai.Term{l.Init}, l.MoreInit...) {
			c.Ob(ai.Subst(at, m) == ai.I64(0), rule, where, pos, "the first extended attribute is not looked at first")
		}
		for _, b := range l.Backs {
			if infeasible(b.Path.St) {
				continue
			}
			c.Ob(same(b.Path.St, ai.Subst(at, b.Next), ai.AddK(at, 1)), rule, where, pos, "the next extended attribute is not looked at next")
			if match {
				c.Ob(notHolds(b.Path.St, ai.Eq(name, p.args[1])), rule, where, pos, "an attribute of the name that was asked for may be passed over")
				continue
			}
			k := 0
			for _, e := range since(b.Path.St, l.Ev) {
				if e.Kind == "append" {
					for _, t := range appended(e) {
						if t == name {
							k++
						}
					}
				}
			}
			c.Ob(k == 1, rule, where, pos, "a name is put into the list %d times", k)
		}
		for _, e := range l.Exits {
			if !infeasible(e) && !(match && holds(e, ai.Eq(name, p.args[1]))) {
				c.Ob(notHolds(e, ai.Lt(true, at, cnt)), rule, where, pos, "the loop may be left while there are more extended attributes")
			}
		}
		for _, o := range l.Outs {
			if infeasible(o.St) || match && holds(o.St, ai.Eq(name, p.args[1])) {
				continue
			}
			c.Ob(notHolds(o.St, ai.Lt(true, at, cnt)), rule, where, pos, "the function may end while there are more extended attributes")
		}
	}
	c.Ob(n > 0, rule, fnShort(p.fn), c.pos(p.fn.Pos()), "the extended attributes are not looked at one by one")
}

func (a *Attrs) names(p *Part, o ai.Outcome, id []*ai.Term) {
	where, pos := fnShort(p.fn), a.c.pos(p.fn.Pos())
	// the list is what a loop over the attributes of the object made
	ok := false
	for _, l := range p.loops {
		it := a.xattrLoop(l)
		if it == nil || !ofObject(o.St, it, xattrType, id, false) {
			continue
		}
		for _, s := range l.Syms {
			if o.Ret.A[0].Op == ai.OSlice && termContains(o.Ret.A[0].A[0], s) {
				ok = true
			}
		}
	}
	a.c.Ob(ok, "names", where, pos, "what is returned is not the list of the names of the object's extended attributes")
}

func (a *Attrs) link(p *Part, o ai.Outcome, id []*ai.Term) {
	where, pos := fnShort(p.fn), a.c.pos(p.fn.Pos())
	i := dataOf(text(o.St, o.Ret.A[0]), extentAcc+"Data")
	if !a.c.Ob(i != nil && ofObject(o.St, i, extentType, id, true), "link", where, pos, "what is returned is not the content of the link's first extent item") {
		return
	}
	k := ai.App(extentAcc+"Type", 8, ai.App(itemData, 0, i))
	a.c.Ob(holds(o.St, ai.Eq(k, ai.Int(8, 0))), "link", where+" inline", pos, "the extent may not be an inline one")
}

// note remembers what ls prints about inode items and entries.
func (a *Attrs) note(x *ai.Exec, e *ai.Event) {
	if e.Kind == "recurse" && e.St != nil {
		// a name before the entries of the directory is a heading
		e.St.Ghosts(nameShown, func(d, _ *ai.Term) {
			loc := ai.App(entryData+"Location.0", 64, d)
			for _, t := range e.Args {
				if t == loc {
					e.St.SetGhost(d, headOf, ai.I64(1))
				}
			}
		})
	}
	if !isPrint(e) || e.St == nil {
		return
	}
	for _, t := range printed(e, x) {
		if t.Op == ai.OIface {
			t = t.A[0]
		}
		var vs []*ai.Term
		var names []string
		var mode *ai.Term
		t.Walk(func(u *ai.Term) bool {
			if u.Op == ai.OApp && strings.HasPrefix(u.S, inodeAcc) && len(u.A) == 1 {
				n := strings.TrimPrefix(u.S, inodeAcc)
				if n == "Mode" {
					mode = u
				}
				if !has(names, n) {
					names = append(names, n)
				}
				for _, v := range vs {
					if v == u.A[0] {
						return true
					}
				}
				vs = append(vs, u.A[0])
			}
			return true
		})
		if t.Op == ai.OApp && t.S == entryData+"Name" {
			e.St.SetGhost(t.A[0], nameShown, ai.I64(1))
		}
		if len(vs) == 0 {
			if t.Op != ai.OStr && t.Op != ai.OInt && !mentions(t, entryData) {
				e.St.SetGhost(ai.Nil, textShown, ai.I64(1))
			}
			continue
		}
		n := strings.Join(names, ", ")
		if k, _ := attrOf(t); k != n && n != "Mode" && n != "Ctime" && !(len(names) > 1 && t.Op == ai.OApp && made[t.S]) {
			n = "something made of " + n
		}
		if n == "Mode" {
			a.mode(e, t, mode)
		}
		if n == "Nlink" && e.St.Ghost(ai.Nil, textShown) != nil && len(vs) == 1 && e.St.Ghost(vs[0], attrShown) == nil {
			// how the permissions were put together is not known
			a.c.Counts["permission texts that are not decided"]++
			n = "Mode, Nlink"
		}
		e.St.SetGhost(ai.Nil, textShown, nil)
		for _, v := range vs {
			old := e.St.Ghost(v, attrShown)
			s := n
			if old != nil {
				s = old.S + ", " + n
			}
			e.St.SetGhost(v, attrShown, ai.Str(s))
		}
	}
}

// made are the functions that put texts together in order.
var made = map[string]bool{"cat": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true}

// mentions reports whether a term is made with one of some functions.
func mentions(t *ai.Term, pre string) (ok bool) {
	t.Walk(func(u *ai.Term) bool {
		ok = ok || u.Op == ai.OApp && strings.HasPrefix(u.S, pre)
		return !ok
	})
	return
}

// mode checks what the permissions look like for all sets of permission bits.
func (a *Attrs) mode(e *ai.Event, t, mode *ai.Term) {
	w, pos := eventWhere(a.c, e)
	for m := uint64(0); m < 512; m++ {
		want := []byte("rwxrwxrwx")
		for i := range want {
			if m>>(8-i)&1 == 0 {
				want[i] = '-'
			}
		}
		for _, hi := range []uint64{0100000, 0047000} {
			r := folded(ai.Subst(t, map[*ai.Term]*ai.Term{mode: ai.Int(mode.W, hi|m)}))
			if r.Op != ai.OStr {
				a.c.Counts["permission texts that are not decided"]++
				return
			}
			if !a.c.Ob(r.S == string(want), "mode", w, pos, "the permissions %o are shown as %s", m, r.S) {
				return
			}
		}
	}
}

// entryTarget is the object that an entry refers to.
func entryTarget(st *ai.State, d *ai.Term) []*ai.Term {
	loc := ai.App(entryData+"Location.0", 64, d)
	var owner *ai.Term
	switch {
	case d.Op == ai.OApp && d.S == "pathitem" && len(d.A) == 3:
		owner = ai.App("pathowner", 64, d.A...)
	case itemOf(d) != nil && len(itemOf(d).A[0].A) == 8:
		owner = itemOf(d).A[0].A[1]
	default:
		return nil
	}
	switch {
	case holds(st, isSubvol(d)):
		return []*ai.Term{loc, ai.Int(64, 256)}
	case notHolds(st, isSubvol(d)):
		return []*ai.Term{owner, loc}
	}
	return nil
}

// shown checks what was shown up to some point.
func (a *Attrs) shown(st *ai.State, where, pos string) {
	c := a.c
	var ds, vs []*ai.Term
	st.Ghosts(nameShown, func(d, _ *ai.Term) { ds = append(ds, d) })
	st.Ghosts(attrShown, func(v, _ *ai.Term) { vs = append(vs, v) })
	mine := map[*ai.Term]bool{}
	for _, d := range ds {
		t := entryTarget(st, d)
		n := 0
		for _, v := range vs {
			if j := inodeOf(v); j != nil && t != nil && sameObject(st, j, t) {
				n++
				mine[v] = true
				s := st.Ghost(v, attrShown).S
				c.Ob(s == "Mode, Nlink, UID, GID, Size, Ctime", "listing", where+" columns", pos, "what is shown for an entry is %s", s)
				a.n++
			}
		}
		if n == 0 && st.Ghost(d, headOf) != nil {
			c.Counts["headings of listings"]++
			continue
		}
		c.Ob(n == 1 || n == 0 && t != nil && missing(st, t), "listing", where, pos, "an entry is shown without the attributes of its inode item")
	}
	for _, v := range vs {
		c.Ob(mine[v], "listing", where+" others", pos, "attributes of an object are shown that is not the entry shown")
	}
}

func (a *Attrs) listing() {
	c := a.c
	a.n = 0
	c.onEvent = a.note
	v := c.viewCommand("ls", nil)
	c.onEvent = nil
	if v == nil {
		return
	}
	for _, p := range v.parts {
		for _, l := range p.loops {
			var sts []*ai.State
			for _, b := range l.Backs {
				sts = append(sts, b.Path.St)
			}
			for _, o := range l.Outs {
				sts = append(sts, o.St)
			}
			for _, s := range append(sts, l.Exits...) {
				if !infeasible(s) {
					a.shown(s, loopWhere(l), c.loopPos(l))
				}
			}
		}
		for _, o := range p.outs {
			if o.Kind == "return" && !infeasible(o.St) {
				a.shown(o.St, fnShort(p.fn), c.pos(p.fn.Pos()))
			}
		}
	}
	c.Ob(a.n > 0, "listing", "ls", "", "ls shows no attributes")
}

// folded evaluates parts of constant texts.
func folded(t *ai.Term) *ai.Term {
	if t.Op != ai.OApp {
		return t
	}
	var as []*ai.Term
	for _, u := range t.A {
		as = append(as, folded(u))
	}
	switch {
	case t.S == "cat" && len(as) == 2 && as[0].Op == ai.OStr && as[1].Op == ai.OStr:
		return ai.Str(as[0].S + as[1].S)
	case t.S == "strb" && len(as) == 3 && as[0].Op == ai.OApp && as[0].S == "bytesof" && as[0].A[0].Op == ai.OStr && as[1].Op == ai.OInt && as[2].Op == ai.OInt:
		s, o, n := as[0].A[0].S, as[1].SVal(), as[2].SVal()
		if o >= 0 && n >= 0 && o+n <= int64(len(s)) {
			return ai.Str(s[o : o+n])
		}
	}
	return t
}
