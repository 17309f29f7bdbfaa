package main

import (
	"go/types"

	"verif/checker/ai"
)

func init() {
	checks["C02"] = checkC02
	checks["C03"] = checkC03
}

// Recover is the analysis of what recover does to the file system.
type Recover struct {
	c       *Check
	v       *View
	l       *Labels
	dest    *ai.Term // the destination as given
	image   *ai.Term // the image as given
	clobber *ai.Term // the value of --clobber
	effects []partEffect
}

type partEffect struct {
	p *Part
	*Effect
}

func (c *Check) recoverRun() *Recover {
	r := &Recover{c: c}
	cmd := c.W.commands()["recover"]
	r.v = c.viewCommandWith("recover", func(p *Part, args []*ai.Term) {
		a := args[len(args)-1]
		if a.Op != ai.OSlice {
			c.Fail("recover", "unexpected arguments of a command")
			return
		}
		r.image = p.st.ReadElem(a.A[0], a.A[1], types.Typ[types.String])
		r.dest = p.st.ReadElem(a.A[0], ai.AddK(a.A[1], 1), types.Typ[types.String])
		if pl, t := c.W.flagPlace(cmd, "clobber"); pl != nil {
			r.clobber = p.st.Load(pl, t)
		}
	})
	if r.v == nil {
		return nil
	}
	if r.dest == nil || r.clobber == nil {
		c.Fail("recover", "the destination or the clobber option was not found")
		return nil
	}
	for _, p := range r.v.parts {
		for _, e := range p.all {
			if f := c.W.effectOf(e); f != nil {
				r.effects = append(r.effects, partEffect{p, f})
			}
		}
	}
	r.l = r.v.labels()
	r.l.infer("place", func(p *Part, e *ai.Event, t *ai.Term) bool { ok, _ := r.place(p, e, t); return ok })
	r.l.infer("real", func(p *Part, e *ai.Event, t *ai.Term) bool { return r.real(p, e, t) })
	r.l.infer("clobber", func(p *Part, e *ai.Event, t *ai.Term) bool {
		return !p.rec && t == r.clobber || r.l.has(p, "clobber", t)
	})
	r.l.infer("device", func(p *Part, e *ai.Event, t *ai.Term) bool {
		if p.rec {
			return r.l.has(p, "device", t)
		}
		at := e.St.Ghost(t, "path")
		return at != nil && at == r.image
	})
	return r
}

// isDest recognises the destination directory itself.
func (r *Recover) isDest(p *Part, e *ai.Event, t *ai.Term) bool {
	if p.rec {
		return false
	}
	if t == r.dest {
		return true
	}
	if t.Op == ai.OApp && (t.S == "path/filepath.Clean" || t.S == "path.Clean") && len(t.A) == 1 {
		return r.isDest(p, e, t.A[0])
	}
	ok := false
	earlier(e, func(q *ai.Event) bool {
		if (q.Name == "path/filepath.EvalSymlinks" || q.Name == "path/filepath.Abs") && q.Res != nil && q.Res.Op == ai.OTuple && q.Res.A[0] == t {
			ok = r.isDest(p, q, q.Args[0])
			return false
		}
		return true
	})
	return ok
}

// place reports whether a path is the destination or directly below a real
// directory inside of it.
func (r *Recover) place(p *Part, e *ai.Event, t *ai.Term) (bool, string) {
	if r.isDest(p, e, t) || r.l.has(p, "place", t) {
		return true, ""
	}
	dir, name, ok := joined(t)
	if !ok {
		if at := r.l.lost(p, "place", t); at != "" {
			return false, "the call at " + at + " passes a path that is not a name in a directory inside the destination"
		}
		return false, "it is not made of a directory inside the destination and a name"
	}
	if ok, why := safeName(e, name); !ok {
		return false, "its name " + why
	}
	if ok, why := r.place(p, e, dir); !ok {
		return false, why
	}
	if !r.real(p, e, dir) {
		return false, "the directory it is in may be a symbolic link"
	}
	return true, ""
}

// below reports whether a path is strictly below the destination.
func (r *Recover) below(p *Part, e *ai.Event, t *ai.Term) (bool, string) {
	if r.isDest(p, e, t) {
		return false, "it is the destination itself"
	}
	return r.place(p, e, t)
}

// real reports whether a path is known to be a directory and no symbolic link
// (the destination itself may have been one, but is used resolved).
func (r *Recover) real(p *Part, e *ai.Event, t *ai.Term) bool {
	if r.l.has(p, "real", t) {
		return true
	}
	made, checked := false, false
	earlier(e, func(q *ai.Event) bool {
		if q.Kind != "call" || len(q.Args) == 0 {
			return true
		}
		switch q.Name {
		case "path/filepath.EvalSymlinks":
			if q.Res.Op == ai.OTuple && q.Res.A[0] == t && q.Res.A[1] == ai.Nil {
				made, checked = true, true
			}
		case "os.Mkdir":
			if q.Args[0] == t && q.Res == ai.Nil {
				made, checked = true, true
			}
		case "os.MkdirAll":
			if q.Args[0] == t && q.Res == ai.Nil {
				made = true
			}
		case "os.Lstat":
			if q.Args[0] == t && q.Res.Op == ai.OTuple {
				if q.Res.A[1] != ai.Nil {
					checked = true // nothing there
					break
				}
				fi := q.Res.A[0]
				e.Facts.Each(func(l *ai.Term) bool {
					if l.Op == ai.OApp && l.S == "(io/fs.FileInfo).IsDir" && l.A[0] == fi || l.Op == ai.OApp && l.S == "(io/fs.FileMode).IsDir" && termContains(l, fi) {
						checked = true
						made = true
					}
					return !checked
				})
				return checked // (the last look counts)
			}
		}
		return !(made && checked)
	})
	return made && checked
}

// absent reports whether nothing is at a path: it was not found there, or was
// removed or made by us before.
func (r *Recover) absent(e *ai.Event, t *ai.Term) bool {
	ok := false
	earlier(e, func(q *ai.Event) bool {
		if q.Kind == "loop" || q.Kind == "recurse" {
			return false
		}
		if q.Kind != "call" || len(q.Args) == 0 {
			return true
		}
		switch q.Name {
		case "os.Lstat":
			if q.Args[0] == t {
				ok = q.Res.Op == ai.OTuple && q.Res.A[1] != ai.Nil
				return !ok
			}
		case "os.Remove":
			if q.Args[0] == t && q.Res == ai.Nil {
				ok = true
				return false
			}
		case "os.Symlink", "os.Link", "os.Rename":
			return false
		}
		return true
	})
	return ok
}

// ours reports whether we have created what is at a path.
func (r *Recover) ours(e *ai.Event, t *ai.Term) bool {
	ok := false
	earlier(e, func(q *ai.Event) bool {
		if q.Kind == "recurse" {
			return false
		}
		if q.Kind != "call" || len(q.Args) == 0 || q.Args[0] != t {
			return true
		}
		switch q.Name {
		case "os.OpenFile":
			f := r.c.W.effectOf(q)
			if f != nil && (f.excl || r.absent(q, t)) && q.Res.Op == ai.OTuple && q.Res.A[1] == ai.Nil {
				ok = true
			}
			return !ok
		case "os.Create":
			ok = r.absent(q, t) && q.Res.Op == ai.OTuple && q.Res.A[1] == ai.Nil
			return !ok
		case "os.Mkdir":
			ok = q.Res == ai.Nil
			return !ok
		}
		return true
	})
	return ok
}

func (r *Recover) clobbers(p *Part, e *ai.Event) bool {
	if !p.rec {
		return fact(e, r.clobber)
	}
	ok := false
	r.l.each(p, "clobber", func(t *ai.Term) { ok = ok || fact(e, t) })
	return ok
}

// own reports whether a file was opened by recover for writing.
func (r *Recover) own(pe partEffect) bool {
	if pe.ev.St == nil || pe.file == nil {
		return false
	}
	h := pe.ev.St.Ghost(pe.file, "how")
	return h != nil && h.Op == ai.OStr && h.S != "os.Open"
}

func (r *Recover) where(pe partEffect) (string, string) {
	c := r.c
	return fnShort(pe.ev.Fn) + " " + pe.ev.Name, c.pos(pe.ev.Instr.Pos())
}

func checkC02(c *Check) {
	c.Rules = map[string]string{
		"inside":  "what is created, changed or removed lies strictly below the destination: a real directory inside of it and a name that is one path component",
		"symlink": "nothing is opened, changed or created through a symbolic link",
		"own":     "only files that recover has created are written",
		"known":   "every call that may change the file system is one whose effect is known",
	}
	c.Assume = append(c.Assume, "nobody else changes the destination tree while recover runs", "names are those of a Unix system")
	r := c.recoverRun()
	if r == nil {
		return
	}
	n := 0
	for _, pe := range r.effects {
		w, pos := r.where(pe)
		e := pe.ev
		if !c.Ob(pe.kind != "unknown", "known", w, pos, "the effect of this call is not known") {
			continue
		}
		if pe.file != nil {
			c.Ob(r.own(pe) || isStd(pe.file), "own", w, pos, "a file is changed that recover did not create")
			continue
		}
		for _, t := range pe.paths {
			n++
			if pe.kind == "mkdir" && r.isDest(pe.p, e, t) {
				c.Ob(true, "inside", w, pos, "")
				continue
			}
			ok, why := r.below(pe.p, e, t)
			c.Ob(ok, "inside", w, pos, "%s of a path: %s", pe.kind, why)
			if pe.kind == "remove" || pe.kind == "removeall" || pe.kind == "rename" || pe.keeps {
				continue // of the link itself
			}
			c.Ob(r.absent(e, t) || r.ours(e, t) || (pe.kind == "attr" || pe.kind == "mkdir") && r.real(pe.p, e, t), "symlink", w, pos, "%s may follow a symbolic link at its path", pe.kind)
		}
	}
	c.Ob(n > 0, "inside", "recover", "", "nothing is recovered")
	c.Counts["effects on paths"] += n
}

func checkC03(c *Check) {
	c.Rules = map[string]string{
		"create":  "without --clobber only what did not exist before is created: exclusively, or after nothing was found at the path",
		"remove":  "something that exists is removed, replaced or truncated only if --clobber was given, and only at the path of the entry itself",
		"known":   "every call that may change the file system is one whose effect is known",
		"written": "only files that recover has created are written or truncated",
	}
	c.Assume = append(c.Assume, "nobody else changes the destination tree while recover runs")
	r := c.recoverRun()
	if r == nil {
		return
	}
	n := 0
	for _, pe := range r.effects {
		w, pos := r.where(pe)
		e := pe.ev
		if !c.Ob(pe.kind != "unknown", "known", w, pos, "the effect of this call is not known") {
			continue
		}
		if pe.file != nil {
			c.Ob(r.own(pe) || isStd(pe.file), "written", w, pos, "a file is changed that recover did not create")
			continue
		}
		n++
		for i, t := range pe.paths {
			switch pe.kind {
			case "mkdir", "symlink", "link", "mknod":
				c.Ob(true, "create", w, pos, "")
			case "attr", "lattr":
				// attributes are not content
				c.Ob(true, "create", w, pos, "")
			case "create", "open":
				c.Ob(pe.excl || r.absent(e, t) || r.ours(e, t), "create", w, pos, "an existing file may be opened for writing")
			case "truncate":
				c.Ob(r.ours(e, t), "remove", w, pos, "an existing file may be truncated")
			case "rename":
				if i == 0 {
					c.Ob(r.ours(e, t), "remove", w, pos, "an existing object may be moved")
				} else {
					c.Ob(r.absent(e, t) || r.clobbers(pe.p, e), "remove", w, pos, "an existing object may be replaced although --clobber was not given")
				}
			case "removeall":
				c.Ob(r.ours(e, t), "remove", w, pos, "everything below an existing directory may be removed")
			case "remove":
				c.Ob(r.clobbers(pe.p, e) || r.ours(e, t), "remove", w, pos, "an existing object may be removed although --clobber was not given")
				ok, why := r.below(pe.p, e, t)
				c.Ob(ok, "remove", w, pos, "something other than the entry's own path is removed: %s", why)
			}
		}
	}
	c.Ob(n > 0, "create", "recover", "", "nothing is recovered")
	c.Counts["effects on paths"] += n
}
