package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C01"] = checkC01 }

// opensDB tells which index functions open a database, and where they are
// given its path.
const (
	ixOpen         = indexPkg + ".Open"
	ixOpenReadOnly = indexPkg + ".OpenReadOnly"
	boltOpen       = bboltPkg + ".Open"
)

// changesFiles reports whether a function that is referred to may change the
// file system.
func changesFiles(n string) bool {
	if _, ok := pathEffects[n]; ok {
		return true
	}
	if harmless[n] {
		return false
	}
	if n == boltOpen || writesNamedFile(n) || strings.HasPrefix(n, "(*os.File).") {
		return true
	}
	for _, p := range []string{"os.Open", "os.Chdir", "os.Chroot", "syscall.", "(*os/exec.", "os/exec.", "golang.org/x/sys/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func checkC01(c *Check) {
	c.Rules = map[string]string{
		"known":    "every call that may change the file system is one whose effect is known",
		"handle":   "only files that were opened for writing by the command itself are written, never the image",
		"place":    "recover creates, changes and removes only what is below the destination; other commands and the mounted view change nothing",
		"image":    "what is removed, replaced or opened for writing is known not to be the image",
		"database": "only recon opens a database for writing, at the path given for it, after having made sure that it is not the device",
		"readonly": "a database is opened for reading only elsewhere, and only if it exists",
	}
	c.Assume = append(c.Assume, "nobody else renames files while a command runs",
		"go-fuse, cobra and the progress bar do not change files that they are not given; bbolt opened read-only does not change the database",
		"os.SameFile recognises the same file")
	ps := c.programs(func(f *ssa.Function) bool { return refers(f, changesFiles) })
	n := 0
	for _, p := range ps.parts {
		for _, e := range p.all {
			f := c.W.effectOf(e)
			w, pos := eventWhere(c, e)
			if e.Kind == "call" && (e.Name == boltOpen || strings.HasSuffix(e.Name, module+"/"+indexPkg+".Open") || strings.HasSuffix(e.Name, module+"/"+indexPkg+".OpenReadOnly") || e.Name == ixOpen || e.Name == ixOpenReadOnly) {
				n++
				ps.database(p, e, w, pos)
				continue
			}
			if f == nil {
				continue
			}
			n++
			if !c.Ob(f.kind != "unknown", "known", w, pos, "the effect of this call is not known") {
				continue
			}
			if f.file != nil {
				ok := isStd(f.file)
				if h := e.St.Ghost(f.file, "how"); h != nil && h.Op == ai.OStr && h.S != "os.Open" {
					ok = true
				}
				c.Ob(ok, "handle", w, pos, "a file is changed that was not opened for writing: it may be the image")
				continue
			}
			for _, t := range f.paths {
				if p.cmd != "recover" {
					c.Ob(false, "place", w, pos, "%s changes the file system", p.cmd)
					continue
				}
				r := ps.rec
				ok, why := r.below(p.Part, e, t)
				if f.kind == "mkdir" && r.isDest(p.Part, e, t) {
					ok = true
				}
				c.Ob(ok, "place", w, pos, "%s of a path: %s", f.kind, why)
				if f.excl || f.kind == "mkdir" {
					c.Ob(true, "image", w, pos, "")
					continue
				}
				c.Ob(r.absent(e, t) || r.ours(e, t) || ps.notImage(p, e, t), "image", w, pos, "%s may hit the image if it lies in the destination", f.kind)
			}
		}
	}
	c.Ob(n > 3, "known", "btrfscue", "", "only %d effects were found", n)
	c.Counts["effects"] += n
	c.Counts["functions analysed on their own"] += len(ps.parts)
}

func eventWhere(c *Check, e *ai.Event) (string, string) {
	w, pos := e.Name, ""
	if e.Fn != nil {
		w = fnShort(e.Fn) + " " + e.Name
	}
	if e.Instr != nil {
		pos = c.pos(e.Instr.Pos())
	}
	return w, pos
}

// database checks the opening of a database.
func (ps *Programs) database(p *Prog, e *ai.Event, w, pos string) {
	c := ps.c
	path := e.Args[0]
	if strings.HasSuffix(e.Name, ".OpenReadOnly") {
		c.Ob(true, "readonly", w, pos, "")
		return
	}
	if e.Name == boltOpen {
		// the library function: for reading only, or at the path and with the
		// options it is given
		ro := ai.Bool(false)
		if len(e.Args) > 2 {
			if i, t := fieldNamed(e.Instr.(ssa.CallInstruction).Common().Args[2].Type().Underlying(), "ReadOnly"); i >= 0 && e.Args[2] != ai.Nil {
				ro = e.St.Load(ai.FieldAddr(e.Args[2], i), t)
			}
			if i, t := fieldNamed(e.Instr.(ssa.CallInstruction).Common().Args[2].Type().Underlying(), "OpenFile"); i >= 0 && e.Args[2] != ai.Nil {
				c.Ob(e.St.Load(ai.FieldAddr(e.Args[2], i), t) == ai.Nil, "known", w, pos, "the database is opened by another function")
			}
		}
		root := fnShort(p.fn)
		if root == ixOpenReadOnly {
			exists := false
			earlier(e, func(q *ai.Event) bool {
				if (q.Name == "os.Stat" || q.Name == "os.Open") && q.Args[0] == path && q.Res != nil && q.Res.Op == ai.OTuple && q.Res.A[1] == ai.Nil {
					exists = true
				}
				return !exists
			})
			c.Ob(fact(e, ro) || ro.True(), "readonly", w, pos, "the database may be opened for writing")
			c.Ob(exists && path == p.args[0], "readonly", w, pos, "the database may be created")
			return
		}
		c.Ob(root == ixOpen && path == p.args[0], "database", w, pos, "a database is opened for writing")
		return
	}
	if !c.Ob(p.cmd == "recon", "database", w, pos, "%s opens the database for writing", p.cmd) {
		return
	}
	c.Ob(ps.isMetadata(p, path), "database", w, pos, "the database is not the one given with --metadata")
	gone := false
	earlier(e, func(q *ai.Event) bool {
		if q.Name == "os.Stat" && q.Args[0] == path && q.Res != nil && q.Res.Op == ai.OTuple && q.Res.A[1] != ai.Nil {
			gone = true
		}
		return !gone
	})
	c.Ob(gone || ps.notImage(p, e, path), "database", w, pos, "the database may be the device itself")
}

// isMetadata recognises the value of --metadata.
func (ps *Programs) isMetadata(p *Prog, t *ai.Term) bool {
	g := ps.c.W.global("cmd/btrfscue/app", "Global")
	if g == nil {
		return false
	}
	i, ft := fieldNamed(g.Type().Underlying(), "Metadata")
	return i >= 0 && p.st.Load(ai.FieldAddr(ai.GlobalAddr(g), i), ft) == t
}

// isImage recognises the path of the image: the first argument of a command.
func (ps *Programs) isImage(p *Prog, t *ai.Term) bool {
	for _, q := range ps.parts {
		if q.cmd != p.cmd || !q.root || len(q.args) == 0 {
			continue
		}
		if a := q.args[len(q.args)-1]; a.Op == ai.OSlice && q.st.ReadElem(a.A[0], a.A[1], types.Typ[types.String]) == t {
			return true
		}
	}
	return false
}

// isDevice recognises the open image.
func (ps *Programs) isDevice(p *Prog, e *ai.Event, t *ai.Term) bool {
	if ps.rec != nil && p.cmd == "recover" && ps.rec.l.has(p.Part, "device", t) {
		return true
	}
	path := e.St.Ghost(t, "path")
	return path != nil && ps.isImage(p, path)
}

// notImage reports whether a path is known not to be the image.
func (ps *Programs) notImage(p *Prog, e *ai.Event, t *ai.Term) bool {
	ok := false
	info := func(t *ai.Term) (how string, of *ai.Term) {
		if t.Op == ai.OIface {
			t = t.A[0]
		}
		if t.Op == ai.OApp && t.S == "nn:fileinfo" {
			return t.A[0].S, t.A[1]
		}
		return "", nil
	}
	e.Facts.Each(func(l *ai.Term) bool {
		if l.Op != ai.ONot || l.A[0].Op != ai.OApp || l.A[0].S != "os.SameFile" {
			return true
		}
		for k := 0; k < 2; k++ {
			h1, a := info(l.A[0].A[k])
			h2, b := info(l.A[0].A[1-k])
			if a != t || h1 != "os.Stat" && h1 != "os.Lstat" || b == nil {
				continue
			}
			switch h2 {
			case "(*os.File).Stat":
				ok = ok || ps.isDevice(p, e, b)
			case "os.Stat":
				ok = ok || ps.isImage(p, b)
			}
		}
		return !ok
	})
	return ok
}
