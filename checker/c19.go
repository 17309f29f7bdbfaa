package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C19"] = checkC19 }

// The mounted view serves requests at the same time. What requests have in
// common is reached from the receiver of the handler and from package
// variables. A place is a field of a type of object, or what such a field
// refers to.

// Access is one access to a place that requests share.
type Access struct {
	place      string
	write      bool
	guards     map[string]bool // locks of the object that are held
	shared     map[string]bool // those that are held for reading at least
	where, pos string
}

// Locksets collects the accesses of handlers.
type Locksets struct {
	c     *Check
	order map[string]map[string]string // lock held -> lock taken -> where
	locks int
	acc   []*Access
}

// Sharing tells what is shared in the analysis of one function.
type Sharing struct {
	ls   *Locksets
	acc  []*Access
	ord  map[[2]string]string
	lcks int
	name string
	root map[*ai.Term]*Place // objects and what shared fields refer to
}

// Place is a shared object (no field), or what a field of one refers to.
type Place struct {
	base *ai.Term
	typ  types.Type
	path string
}

func (ls *Locksets) sharing(name string) *Sharing {
	return &Sharing{ls: ls, name: name, root: map[*ai.Term]*Place{}, ord: map[[2]string]string{}}
}

// isObject reports whether a pointer is to a struct of the module, which is an
// object of its own.
func (w *World) isObject(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, s := w.inModule(p.Elem())
	return s != nil
}

func isReference(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	}
	return false
}

// share makes an object known to be shared.
func (s *Sharing) share(st *ai.State, obj *ai.Term, t types.Type) {
	if obj == nil {
		return
	}
	if s.root[obj] == nil {
		s.root[obj] = &Place{obj, t, ""}
	}
	if obj.Op == ai.OObj && st != nil {
		st.SetGhost(obj, "shared", ai.Bool(true))
	}
}

// String names the place.
func (p *Place) String() string {
	if p.typ == nil {
		return "package variable " + ai.GlobalName(p.base) + p.path
	}
	r, t := "", p.typ
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	r = types.TypeString(t, func(*types.Package) string { return "" })
	rest := p.path
	for strings.HasPrefix(rest, ".") {
		k := 1
		for k < len(rest) && rest[k] >= '0' && rest[k] <= '9' {
			k++
		}
		i, _ := strconv.Atoi(rest[1:k])
		st, ok := t.Underlying().(*types.Struct)
		if !ok || i >= st.NumFields() {
			break
		}
		r += "." + st.Field(i).Name()
		t = st.Field(i).Type()
		rest = rest[k:]
	}
	return r + rest
}

// of finds the place of an address or of a map or slice.
func (s *Sharing) of(st *ai.State, a *ai.Term) *Place {
	if a == nil {
		return nil
	}
	if a.Op == ai.OSlice {
		a = a.A[0]
	}
	base, path, elem := ai.SplitAddr(a)
	if base == nil {
		return nil
	}
	if q := s.root[base]; q != nil {
		if base.Op == ai.OObj {
			// made by this request: shared once it was put in place
			if g := st.Ghost(base, "shared"); g == nil || !g.True() {
				return nil
			}
		}
		if q.path == "" {
			if elem {
				path += "[]"
			}
			return &Place{q.base, q.typ, path}
		}
		return q
	}
	if ai.GlobalName(base) != "" {
		if elem {
			path += "[]"
		}
		return &Place{base, nil, path}
	}
	return nil
}

// guardsOf lists the locks that are held, as seen from an object.
func (s *Sharing) guardsOf(st *ai.State, base *ai.Term) (excl, any map[string]bool) {
	excl, any = map[string]bool{}, map[string]bool{}
	self := ai.App("nn:self", 0)
	st.Ghosts("held", func(m, v *ai.Term) {
		if !v.True() {
			return
		}
		n := ""
		if b, path, _ := ai.SplitAddr(m); b == base {
			n = "its lock" + " " + path
			if q := s.root[b]; q != nil {
				n = "the lock " + (&Place{b, q.typ, q.path + path}).String()
			}
		} else if ai.GlobalName(b) != "" {
			n = "lock " + ai.GlobalName(b) + path
		} else if q := ai.Subst(m, map[*ai.Term]*ai.Term{base: self}); q != m {
			n = "lock " + q.String()
		} else {
			return
		}
		any[n] = true
		if r := st.Ghost(m, "heldshared"); r == nil || !r.True() {
			excl[n] = true
		}
	})
	return
}

func (s *Sharing) access(st *ai.State, p *Place, write bool, where, pos string) {
	if p == nil || p.path == "" && p.typ != nil {
		return
	}
	n := p.String()
	a := &Access{place: n, write: write, where: where, pos: pos}
	a.guards, a.shared = s.guardsOf(st, p.base)
	s.acc = append(s.acc, a)
}

// refers notes what a value refers to that was read from, or put in, a place.
func (s *Sharing) refers(st *ai.State, p *Place, v *ai.Term, t types.Type, stored bool) {
	if v == nil || t == nil || p == nil || !isReference(t) {
		return
	}
	if s.ls.c.W.isObject(t) {
		s.share(st, v, t)
		return
	}
	if v.Op == ai.OSlice {
		v = v.A[0]
	}
	b, path, _ := ai.SplitAddr(v)
	if b == nil || path != "" {
		return
	}
	if s.root[b] == nil {
		s.root[b] = &Place{p.base, p.typ, p.path + "*"}
	}
	if b.Op == ai.OObj {
		st.SetGhost(b, "shared", ai.Bool(true))
	}
}

// mem handles loads and stores.
func (s *Sharing) mem(e *ai.Event) {
	p := s.of(e.St, e.Args[0])
	var t types.Type
	switch i := e.Instr.(type) {
	case *ssa.Store:
		t = i.Val.Type()
	case ssa.Value:
		t = i.Type()
	}
	if e.Kind == "load" && p == nil && t != nil && s.ls.c.isIndexPtr(t) && len(e.Args) > 1 {
		s.share(e.St, e.Args[1], t) // (the index of a range)
	}
	if p == nil {
		return
	}
	s.access(e.St, p, e.Kind == "store", fnShort(e.Fn), s.ls.c.pos(e.Instr.Pos()))
	if len(e.Args) > 1 {
		s.refers(e.St, p, e.Args[1], t, e.Kind == "store")
	}
}

// event handles maps, calls and locks.
func (s *Sharing) event(e *ai.Event) {
	c := s.ls.c
	where, pos := eventWhere(c, e)
	switch e.Kind {
	case "maplookup", "range", "mapnext":
		s.access(e.St, s.of(e.St, e.Args[0]), false, where, pos)
	case "mapupdate", "mapdelete", "mapclear":
		s.access(e.St, s.of(e.St, e.Args[0]), true, where, pos)
	case "copy":
		s.access(e.St, s.of(e.St, e.Args[0]), true, where, pos)
		s.access(e.St, s.of(e.St, e.Args[1]), false, where, pos)
	case "sort":
		s.access(e.St, s.of(e.St, e.Args[0]), true, where, pos)
	case "lock":
		s.lcks++
		m := e.Args[0]
		e.St.SetGhost(m, "heldshared", ai.Bool(strings.HasSuffix(e.Name, ".RLock")))
		e.St.Ghosts("held", func(h, v *ai.Term) {
			if h == m || !v.True() {
				return
			}
			if b, _, _ := ai.SplitAddr(m); b != nil && b.Op == ai.OObj && s.root[b] == nil {
				return // nobody else knows it
			}
			a, b := s.lockName(h), s.lockName(m)
			s.ord[[2]string{a, b}] = where + " " + pos
		})
	case "call":
		for i, a := range e.Args {
			if n := unsafeCall(e.Name); n && i == 0 {
				s.access(e.St, s.inner(e.St, a), true, where, pos)
			}
		}
	}
}

// unsafeCall reports whether an operation must not run twice at the same time
// on one object.
func unsafeCall(name string) bool {
	for _, n := range []string{"os.File).Seek", "os.File).Read", "os.File).Write", "os.File).Readdir", "bufio.", "bytes.Buffer).", "math/rand.Rand).", "strings.Builder)."} {
		if i := strings.Index(name, n); i >= 0 && (strings.HasSuffix(n, ".") || strings.HasSuffix(name, n)) {
			return true
		}
	}
	for _, n := range []string{"Cursor", "Bucket", "Tx"} {
		if strings.Contains(name, bboltPkg+"."+n+").") {
			return true
		}
	}
	return strings.HasSuffix(name, "io.Reader).Read") || strings.HasSuffix(name, "io.Seeker).Seek") || strings.HasSuffix(name, "io.ReadSeeker).Seek") || strings.HasSuffix(name, "io.ReadSeeker).Read")
}

// inner is the place of an object that does not belong to the module.
func (s *Sharing) inner(st *ai.State, a *ai.Term) *Place {
	for a != nil && a.Op == ai.OIface {
		a = a.A[0]
	}
	if q := s.of(st, a); q != nil && q.path != "" {
		return q
	}
	return nil
}

func (s *Sharing) lockName(m *ai.Term) string {
	b, path, _ := ai.SplitAddr(m)
	if q := s.root[b]; q != nil {
		return (&Place{b, q.typ, q.path + path}).String()
	}
	if n := ai.GlobalName(b); n != "" {
		return n + path
	}
	return m.String()
}

// collect adds what was found in a function to what was found elsewhere.
func (ls *Locksets) collect(s *Sharing) {
	ls.acc = append(ls.acc, s.acc...)
	ls.locks += s.lcks
	for k, w := range s.ord {
		if ls.order[k[0]] == nil {
			ls.order[k[0]] = map[string]string{}
		}
		ls.order[k[0]][k[1]] = w
	}
}

// ends checks that no lock is held when a function returns.
func (s *Sharing) ends(fn *ssa.Function, outs []ai.Outcome) {
	c := s.ls.c
	for _, o := range outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		bad := ""
		o.St.Ghosts("held", func(m, v *ai.Term) {
			if !v.False() {
				bad = s.lockName(m)
			}
		})
		c.Ob(bad == "", "released", fnShort(fn), c.pos(fn.Pos()), "%s may still be held at the end", bad)
	}
}

func (s *Sharing) locking(obs []*ai.Ob) {
	c := s.ls.c
	for _, o := range obs {
		if o.Kind == "deadlock" || o.Kind == "unlock" {
			c.Ob(o.OK, o.Kind, fnShort(o.Fn), c.pos(o.Instr.Pos()), "a lock may be taken twice, or released without being held")
		}
	}
}

func checkC19(c *Check) {
	c.Rules = map[string]string{
		"guarded":  "what requests change that others can see is accessed only while one and the same lock of the object is held",
		"released": "no lock is held when a request has been answered",
		"deadlock": "no lock is taken that is held already",
		"unlock":   "no lock is released that is not held",
		"order":    "locks are taken in one order everywhere",
	}
	c.Assume = append(c.Assume,
		"go-fuse may call every handler at any time and any number of times at once, except OnMount and SetInode, which come before",
		"bbolt: cursors belong to one request, buckets and transactions must be used by one at a time for everything but reading pages; device files are read with ReadAt, which is safe",
		"the index is not changed or closed while it is mounted (C06, C29)")
	ls := &Locksets{c: c, order: map[string]map[string]string{}}
	shs := map[*ai.Exec]*Sharing{}
	v := c.mountView(func(x *ai.Exec) {
		s := ls.sharing("mount")
		shs[x] = s
		x.OnMem = func(e *ai.Event) {
			if s.live(c.view.cur) {
				s.mem(e)
			}
		}
		give := x.OnGive
		x.OnGive = func(st *ai.State, args []*ai.Term) {
			if give != nil {
				give(st, args)
			}
			for _, a := range args {
				a.Walk(func(u *ai.Term) bool {
					if u.Op == ai.OIface {
						if pt, ok := u.X.(*types.Pointer); ok && c.W.isObject(pt) {
							s.share(st, u.A[0], pt)
						}
					}
					return true
				})
			}
		}
		c.onEvent = func(x *ai.Exec, e *ai.Event) {
			if t := shs[x]; t != nil && t.live(c.view.cur) {
				t.event(e)
			}
		}
	})
	c.onEvent = nil
	if v == nil {
		return
	}
	n := 0
	for _, p := range v.parts {
		s := shs[p.x]
		if !concurrent(p) || s == nil {
			continue
		}
		n++
		ls.collect(s)
		s.ends(p.fn, p.outs)
		s.locking(p.obs)
	}
	c.Ob(n > 5, "guarded", "mount", "", "few handlers were found")
	c.Counts["handlers"] = n
	m := 0
	for _, f := range c.W.entryPoints() {
		if ls.library(f) {
			m++
		}
	}
	c.Ob(m > 0, "guarded", "index", "", "no operations of the index are used")
	c.Counts["operations used by handlers"] = m
	ls.decide()
}

// concurrent reports whether a part runs at the same time as others.
func concurrent(p *Part) bool {
	if p == nil || !p.handler {
		return p != nil && p.rec
	}
	switch p.fn.Name() {
	case "OnMount", "SetInode":
		return false
	}
	return true
}

func (s *Sharing) live(p *Part) bool {
	if !concurrent(p) {
		return false
	}
	if p.handler && len(p.args) > 0 {
		s.share(nil, p.args[0], p.fn.Params[0].Type())
	}
	return true
}

func (ls *Locksets) decide() {
	c := ls.c
	by := map[string][]*Access{}
	for _, a := range ls.acc {
		by[a.place] = append(by[a.place], a)
	}
	for _, n := range sortedKeys(by) {
		writes := false
		count := map[string]int{}
		for _, a := range by[n] {
			writes = writes || a.write
			g := a.shared
			if a.write {
				g = a.guards
			}
			for k := range g {
				count[k]++
			}
		}
		if !writes {
			c.Counts["places never changed"]++
			continue
		}
		c.Counts["places changed"]++
		var gs []string
		for k := range count {
			gs = append(gs, k)
		}
		sort.Slice(gs, func(i, j int) bool {
			if count[gs[i]] != count[gs[j]] {
				return count[gs[i]] > count[gs[j]]
			}
			return gs[i] < gs[j]
		})
		best := ""
		if len(gs) > 0 {
			best = gs[0]
		}
		for _, a := range by[n] {
			ok := best != "" && (a.guards[best] || !a.write && a.shared[best])
			what := "read"
			if a.write {
				what = "changed"
			}
			how := "without a lock"
			if best != "" {
				how = fmt.Sprintf("without %s, which is held elsewhere", best)
			}
			c.Ob(ok, "guarded", a.where, a.pos, "%s is %s %s", n, what, how)
		}
	}
	c.Ob(len(by) > 0, "guarded", "mount", "", "nothing is shared")
	// cycles
	var visit func(n string, path []string)
	seen := map[string]bool{}
	visit = func(n string, path []string) {
		for i, m := range path {
			if m == n {
				k := strings.Join(path[i:], " -> ")
				c.Ob(false, "order", ls.order[path[len(path)-1]][n], "", "locks are taken in a circle: %s -> %s", k, n)
				return
			}
		}
		if seen[n] {
			return
		}
		for _, m := range sortedKeys(ls.order[n]) {
			visit(m, append(path, n))
		}
		seen[n] = true
	}
	for _, n := range sortedKeys(ls.order) {
		visit(n, nil)
	}
	c.Ob(ls.locks > 0, "order", "mount", "", "no locks are taken")
}

// entryPoints are the functions of the module that handlers use, and that are
// not in a package of handlers.
func (w *World) entryPoints() []*ssa.Function {
	own := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, f := range w.handlers() {
		own[pkgOf(f)] = true
		if f.Name() != "OnMount" && f.Name() != "SetInode" {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	var r []*ssa.Function
	out := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		gs := map[*ssa.Function]bool{}
		for g := range w.callGraph()[f] {
			gs[g] = true
		}
		for _, a := range f.AnonFuncs {
			gs[a] = true
		}
		for g := range gs {
			if seen[g] || len(g.Blocks) == 0 || !strings.HasPrefix(pkgOf(g), module) {
				continue
			}
			seen[g] = true
			todo = append(todo, g)
			if !own[pkgOf(g)] && g.Parent() == nil && (own[pkgOf(f)] || f.Parent() != nil || strings.HasSuffix(pkgOf(g), indexPkg) && g.Object() != nil && g.Object().Exported()) && !out[g] {
				out[g] = true
				r = append(r, g)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// basic reports whether an operation of the index uses the database itself.
func basic(f *ssa.Function) bool {
	if !strings.HasSuffix(pkgOf(f), indexPkg) {
		return true
	}
	if f.Signature.Recv() == nil || !strings.HasSuffix(f.Signature.Recv().Type().String(), "Index") {
		return true
	}
	switch f.Name() {
	case "Range", "FullRange", "FindItem":
		return true
	}
	return false
}

// library analyses an operation that handlers use, on an open index.
func (ls *Locksets) library(f *ssa.Function) bool {
	c := ls.c
	x, st := c.W.Exec()
	s := ls.sharing(fnShort(f))
	if api := c.readAPI(); !basic(f) {
		// on top of the others, which are analysed on their own
		delete(api, fnShort(f))
		x.OpaqueTypes[module+"/"+indexPkg+".Range"] = true
		x.Anchor = both(anchors(api), c.accessors())
		x.OnAssume = rangeFacts(x)
	}
	for n, m := range x.Models {
		m := m
		for _, t := range []string{"Bucket", "Tx", "Cursor"} {
			if strings.HasPrefix(n, "(*"+bboltPkg+"."+t+").") {
				x.Models[n] = func(cl *ai.Call) []ai.Outcome {
					fn, pos := f, f.Pos()
					if cl.Instr != nil {
						fn, pos = cl.Instr.Parent(), cl.Instr.Pos()
					}
					s.access(cl.St, s.inner(cl.St, cl.Args[0]), true, fnShort(fn), c.pos(pos))
					return m(cl)
				}
			}
		}
	}
	x.OnMem = s.mem
	x.OnEvent = func(e *ai.Event) { s.event(e) }
	var obs []*ai.Ob
	x.OnOb = func(o *ai.Ob) { obs = append(obs, o) }
	args := x.Params(f)
	for i, p := range f.Params {
		if c.isIndexPtr(p.Type()) {
			ix := c.indexObj(args[i])
			if ix == nil {
				c.Fail(fnShort(f), "the index has no database, transaction and bucket fields")
				return false
			}
			ix.state(x, st, "read")
			s.share(nil, args[i], p.Type())
		} else if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			x.Assume(st, ai.Not(ai.Eq(args[i], ai.Nil)))
		}
	}
	outs := x.RunFree(f, args, st)
	c.Errs(x, fnShort(f))
	c.saw(f)
	c.Counts["steps"] += x.Steps
	ls.collect(s)
	s.ends(f, outs)
	s.locking(obs)
	return pkgOf(f) == module+"/"+indexPkg
}
