package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C20"] = checkC20 }

// modifying are the operations of nodes and files that change something.
var modifying = map[string][]string{
	"Node": {"Mknod", "Mkdir", "Unlink", "Rmdir", "Symlink", "Rename", "Link", "Create", "Write", "RemoveXAttr", "SetXAttr", "Chmod", "Chown", "Truncate", "Utimens", "Fallocate"},
	"File": {"Write", "Truncate", "Chown", "Chmod", "Utimens", "Allocate"},
}

// rejecting are the constructors of the library for nodes and files that
// reject every change.
var rejecting = map[string]bool{
	"NewDefaultNode": true, "NewDefaultFile": true, "NewReadOnlyFile": true, "NewDataFile": true,
}

func (w *World) nodefsType(name string) types.Type {
	for _, p := range w.P.Prog.AllPackages() {
		if p.Pkg.Path() == nodefsPkg {
			if t, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return t.Type()
			}
		}
	}
	return nil
}

// embeddedPaths are the fields that lead to embedded interfaces.
func embeddedPaths(t types.Type, pre []int, depth int) [][]int {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth == 0 {
		return nil
	}
	var r [][]int
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		p := append(append([]int(nil), pre...), i)
		if types.IsInterface(f.Type()) {
			r = append(r, p)
		} else {
			r = append(r, embeddedPaths(f.Type(), p, depth-1)...)
		}
	}
	return r
}

// embedded loads the embedded interfaces of an object.
func embedded(st *ai.State, obj *ai.Term, t types.Type) map[string]*ai.Term {
	r := map[string]*ai.Term{}
	for _, p := range embeddedPaths(t, nil, 4) {
		a, cur := obj, t
		for k, i := range p {
			s := cur.Underlying().(*types.Struct)
			a = ai.FieldAddr(a, i)
			cur = s.Field(i).Type()
			if pt, ok := cur.Underlying().(*types.Pointer); ok && k < len(p)-1 {
				a = st.Load(a, cur)
				cur = pt.Elem()
			}
		}
		r[fmt.Sprint(p)] = st.Load(a, cur)
	}
	return r
}

// ReadOnly decides which nodes and files reject changes.
type ReadOnly struct {
	c    *Check
	v    *View
	mine map[*types.Named]bool
}

// rejects reports whether a node or file rejects changes, given that those of
// the module's types do.
func (r *ReadOnly) rejects(st *ai.State, t *ai.Term) (bool, string) {
	for t.Op == ai.OIface {
		pt, ok := t.X.(types.Type).(*types.Pointer)
		if !ok {
			return false, fmt.Sprintf("it is a %s", t.X)
		}
		n, ok := pt.Elem().(*types.Named)
		if !ok {
			return false, fmt.Sprintf("it is a %s", t.X)
		}
		if r.mine[n] {
			return true, ""
		}
		if n.Obj().Name() == "WithFlags" && n.Obj().Pkg().Path() == nodefsPkg && st != nil {
			i, ft := fieldNamed(n.Underlying(), "File")
			if i < 0 {
				return false, "it is of an unknown type"
			}
			t = st.Load(ai.FieldAddr(t.A[0], i), ft)
			continue
		}
		return false, fmt.Sprintf("it is a %s", t.X)
	}
	if t == ai.Nil {
		return true, ""
	}
	if t.Op == ai.OApp && strings.HasPrefix(t.S, "nn:nodefs.") {
		n := strings.TrimPrefix(t.S, "nn:nodefs.")
		if rejecting[n] {
			return true, ""
		}
		return false, "it comes from nodefs." + n
	}
	return false, "it is not known what it is"
}

func checkC20(c *Check) {
	c.Rules = map[string]string{
		"method": "every operation of a node or file that changes something is the library's default, which rejects it, or fails and changes nothing",
		"file":   "every file handed out is one of these, or one of the library's files that reject changes",
		"node":   "every node handed out is one of these, or the library's default node",
		"effect": "no request changes the file system, and no file is opened for writing",
		"index":  "the metadata database is opened for reading only",
	}
	c.Assume = append(c.Assume,
		"go-fuse: NewDefaultNode and NewDefaultFile reject every operation, NewDataFile and NewReadOnlyFile all that change something; times are set through nodes only (read-only files do not intercept Utimens, but no default node forwards it)",
		"go-fuse serves nothing but the nodes given to NewChild and MountRoot and the files returned by Open and Create")
	v := c.mountView(nil)
	if v == nil {
		return
	}
	r := &ReadOnly{c, v, map[*types.Named]bool{}}
	for _, t := range c.W.handlerTypes() {
		r.mine[t] = true
	}
	node, file := c.W.nodefsType("Node"), c.W.nodefsType("File")
	if node == nil || file == nil {
		c.Fail("mount", "the interfaces of the FUSE library are not found")
		return
	}
	parts := map[*ssa.Function]*Part{}
	for _, p := range v.parts {
		if p.handler {
			parts[p.fn] = p
		}
	}
	// the operations
	for _, t := range c.W.handlerTypes() {
		for _, k := range []string{"Node", "File"} {
			it := node
			if k == "File" {
				it = file
			}
			if !types.Implements(types.NewPointer(t), it.Underlying().(*types.Interface)) {
				continue
			}
			for _, m := range modifying[k] {
				r.method(t, k, m, parts)
			}
		}
	}
	// what is handed out
	isNode := func(t types.Type) bool { return types.Identical(t, node) }
	isFile := func(t types.Type) bool { return types.Identical(t, file) }
	n := 0
	for _, p := range v.parts {
		for _, o := range p.outs {
			if !p.handler || o.Kind != "return" || o.Ret == nil || infeasible(o.St) {
				continue
			}
			rs := p.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				t := o.Ret
				if rs.Len() > 1 {
					t = o.Ret.A[i]
				}
				if isFile(rs.At(i).Type()) {
					ok, why := r.rejects(o.St, t)
					n++
					c.Ob(ok, "file", fnShort(p.fn), c.pos(p.fn.Pos()), "a file that may be changed is handed out: %s", why)
				}
			}
		}
		for _, e := range p.all {
			w, pos := eventWhere(c, e)
			if f := c.W.effectOf(e); f != nil {
				ok := f.file != nil && isStd(f.file)
				if f.kind == "unknown" && f.file == nil && len(f.paths) == 0 && c.libraryCall(e) {
					ok = true
				}
				c.Ob(ok, "effect", w, pos, "%s", f.kind)
			}
			if e.Kind != "call" || e.Instr == nil {
				continue
			}
			if strings.HasSuffix(e.Name, indexPkg+".Open") || e.Name == boltOpen {
				c.Ob(false, "index", w, pos, "the metadata database is not opened for reading only")
			}
			ci, ok := e.Instr.(ssa.CallInstruction)
			if !ok || !strings.Contains(e.Name, "hanwen/go-fuse/") {
				continue
			}
			if ci.Common().IsInvoke() {
				// forwarding to another node or file
				mt := ci.Common().Value.Type()
				if isNode(mt) || isFile(mt) {
					k := "Node"
					if isFile(mt) {
						k = "File"
					}
					for _, m := range modifying[k] {
						if ci.Common().Method.Name() == m {
							c.Ob(false, "effect", w, pos, "a change is forwarded")
						}
					}
				}
			}
			sig := ci.Common().Signature()
			off := 0
			if sig.Recv() != nil {
				off = 1
			}
			if ci.Common().IsInvoke() {
				off = 1
			}
			ps := sig.Params()
			for i := 0; i < ps.Len(); i++ {
				if i+off >= len(e.Args) || !isNode(ps.At(i).Type()) && !isFile(ps.At(i).Type()) {
					continue
				}
				if !ci.Common().IsInvoke() && ps.Len()+off != len(e.Args) {
					continue
				}
				if strings.HasSuffix(e.Name, "NewReadOnlyFile") {
					continue
				}
				if p.handler && isParam(p, e.Args[i+off]) {
					continue // what the library handed in
				}
				ok, why := r.rejects(e.St, e.Args[i+off])
				n++
				c.Ob(ok, "node", w, pos, "a node that may be changed is handed out: %s", why)
			}
		}
	}
	c.Ob(n > 2, "node", "mount", "", "no nodes are handed out")
	for _, q := range v.published {
		for _, m := range sortedKeys(q.emb) {
			ok, why := r.rejects(nil, q.emb[m])
			c.Ob(ok, "method", q.typ.Obj().Name(), q.pos, "what it embeds may be changed: %s", why)
		}
	}
}

func isParam(p *Part, t *ai.Term) bool {
	for _, a := range p.args {
		if a == t {
			return true
		}
	}
	return false
}

// libraryCall reports whether a call goes to the FUSE library.
func (c *Check) libraryCall(e *ai.Event) bool {
	return strings.Contains(e.Name, "hanwen/go-fuse/")
}

// method checks an operation of a type.
func (r *ReadOnly) method(t *types.Named, kind, name string, parts map[*ssa.Function]*Part) {
	c := r.c
	where := "(*" + t.Obj().Name() + ")." + name
	obj, path, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), name)
	f, ok := obj.(*types.Func)
	if !c.Ob(ok, "method", where, "", "is not found") {
		return
	}
	recv := f.Type().(*types.Signature).Recv().Type()
	if types.IsInterface(recv) {
		// promoted from an embedded interface: see what it holds
		key := fmt.Sprint(path[:len(path)-1])
		n := 0
		for _, q := range r.v.published {
			if q.typ == t {
				n++
				e := q.emb[key]
				good, why := false, "unknown"
				if e != nil {
					good, why = r.rejects(nil, e)
				}
				c.Ob(good, "method", where, q.pos, "may change something: %s", why)
			}
		}
		if n == 0 {
			c.Ob(true, "method", where, "", "never handed out")
		}
		return
	}
	fn := c.P.Prog.FuncValue(f)
	if fn == nil || !strings.HasPrefix(pkgOf(fn), module) {
		c.Ob(false, "method", where, "", "is a method of %s", recv)
		return
	}
	p := parts[fn]
	if !c.Ob(p != nil, "method", where, c.pos(fn.Pos()), "was not analysed") {
		return
	}
	for _, o := range p.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		st := o.Ret
		if st != nil && st.Op == ai.OTuple {
			st = st.A[len(st.A)-1]
		}
		good := st != nil && st.W > 0 && notHolds(o.St, ai.Eq(st, ai.Int(st.W, 0)))
		c.Ob(good, "method", where, c.pos(fn.Pos()), "may report success")
	}
	for _, e := range p.all {
		if e.Kind == "mapupdate" || e.Kind == "mapdelete" || e.Kind == "mapclear" {
			w, pos := eventWhere(c, e)
			c.Ob(false, "method", w, pos, "changes what is shown")
		}
	}
}
