package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// What library calls do to the file system.

// Effect is what a call may change.
type Effect struct {
	ev    *ai.Event
	kind  string     // mkdir, create, open, remove, symlink, link, rename, attr, truncate, file, unknown
	paths []*ai.Term // objects changed
	file  *ai.Term   // or the open file that is changed
	excl  bool       // never opens or replaces an existing object
	keeps bool       // does not follow or change an existing object
}

var pathEffects = map[string]struct {
	kind string
	args []int
}{
	"os.Mkdir": {"mkdir", []int{0}}, "os.MkdirAll": {"mkdir", []int{0}}, "os.MkdirTemp": {"mkdir", []int{0}},
	"os.Create": {"create", []int{0}}, "os.WriteFile": {"create", []int{0}}, "io/ioutil.WriteFile": {"create", []int{0}}, "os.CreateTemp": {"create", []int{0}},
	"os.Remove": {"remove", []int{0}}, "os.RemoveAll": {"removeall", []int{0}}, "os.Rename": {"rename", []int{0, 1}},
	"os.Symlink": {"symlink", []int{1}}, "os.Link": {"link", []int{1}}, "os.Truncate": {"truncate", []int{0}},
	"os.Chmod": {"attr", []int{0}}, "os.Chown": {"attr", []int{0}}, "os.Chtimes": {"attr", []int{0}}, "os.Lchown": {"lattr", []int{0}},
	"syscall.Mkfifo": {"mknod", []int{0}}, "syscall.Mknod": {"mknod", []int{0}}, "syscall.Mkdir": {"mkdir", []int{0}}, "syscall.Unlink": {"remove", []int{0}},
	"syscall.Rmdir": {"remove", []int{0}}, "syscall.Symlink": {"symlink", []int{1}}, "syscall.Link": {"link", []int{1}}, "syscall.Rename": {"rename", []int{0, 1}},
	"syscall.Truncate": {"truncate", []int{0}}, "syscall.Chmod": {"attr", []int{0}}, "syscall.Chown": {"attr", []int{0}}, "syscall.Lchown": {"lattr", []int{0}},
}

var harmless = map[string]bool{}

func init() {
	for p, ns := range map[string]string{
		"os.":         "Open Stat Lstat ReadFile Readlink ReadDir Getwd Getenv LookupEnv Exit IsExist IsNotExist IsPermission IsTimeout Hostname Getpid TempDir UserHomeDir Environ Getuid Geteuid Getgid SameFile IsPathSeparator Executable ExpandEnv Getpagesize NewSyscallError",
		"(*os.File).": "Close Read ReadAt Seek Stat Name Fd Sync ReadDir Readdir Readdirnames SetDeadline SetReadDeadline",
		"io.":         "ReadFull ReadAll ReadAtLeast NewSectionReader LimitReader MultiReader TeeReader NopCloser",
		"io/ioutil.":  "ReadFile ReadAll ReadDir NopCloser",
		"syscall.":    "Stat Lstat Fstat Getpagesize Getpid Getuid Access",
	} {
		for _, n := range strings.Fields(ns) {
			harmless[p+n] = true
		}
	}
}

var fileWriters = map[string]bool{"Write": true, "WriteAt": true, "WriteString": true, "Truncate": true, "Chmod": true, "Chown": true, "ReadFrom": true}

const (
	oWronly = 1
	oRdwr   = 2
	oCreat  = 0x40
	oExcl   = 0x80
	oTrunc  = 0x200
	oAppend = 0x400
	oNofol  = 0x20000
)

// effectOf tells what an event changes, nil if nothing.
func (w *World) effectOf(e *ai.Event) *Effect {
	if e.Kind != "call" || strings.Contains(e.Name, module) {
		return nil
	}
	n := e.Name
	if p, ok := pathEffects[n]; ok {
		r := &Effect{ev: e, kind: p.kind}
		for _, i := range p.args {
			if i < len(e.Args) {
				r.paths = append(r.paths, e.Args[i])
			}
		}
		switch p.kind {
		case "mkdir", "symlink", "link", "mknod":
			r.excl, r.keeps = true, true
		case "lattr":
			r.keeps = true
		}
		return r
	}
	if n == "os.OpenFile" || n == "syscall.Open" {
		f := e.Args[1]
		if f.IsConst() && f.SVal()&^(oNofol|0x80000) == 0 {
			return nil
		}
		r := &Effect{ev: e, kind: "open", paths: e.Args[:1]}
		if f.IsConst() {
			k := f.SVal()
			if k&oCreat != 0 {
				r.kind = "create"
			}
			r.excl = k&oCreat != 0 && k&oExcl != 0
			r.keeps = r.excl || k&oNofol != 0
		}
		return r
	}
	if harmless[n] || n == "ReadAt" {
		return nil
	}
	if writesNamedFile(n) {
		return &Effect{ev: e, kind: "unknown"}
	}
	if strings.HasPrefix(n, "(*os.File).") {
		k := n[len("(*os.File)."):]
		if fileWriters[k] {
			return &Effect{ev: e, kind: "file", file: e.Args[0]}
		}
		return &Effect{ev: e, kind: "unknown"}
	}
	for _, p := range []string{"os.", "(*os.", "(os.", "syscall.", "(*os/exec.", "os/exec.", "golang.org/x/sys/"} {
		if strings.HasPrefix(n, p) {
			return &Effect{ev: e, kind: "unknown"}
		}
	}
	if strings.HasPrefix(n, "go.etcd.io/bbolt.") || strings.Contains(n, "go.etcd.io/bbolt.") {
		return nil
	}
	// a file given to other libraries
	for _, a := range e.Args {
		if f := writableFile(e, a); f != nil && !isStd(f) {
			return &Effect{ev: e, kind: "file", file: f}
		}
	}
	return nil
}

// writesNamedFile recognises library functions that write a file of a name.
func writesNamedFile(n string) bool {
	n = n[strings.LastIndexByte(n, '.')+1:]
	return n == "CopyFile" || n == "Compact" || n == "NewLoopbackFileSystem" || strings.HasPrefix(n, "Gen") && strings.HasSuffix(n, "File")
}

// writableFile finds a file in a value that was not opened for reading only.
func writableFile(e *ai.Event, a *ai.Term) *ai.Term {
	if e.St == nil {
		return nil
	}
	var r *ai.Term
	a.Walk(func(t *ai.Term) bool {
		if r == nil && t.Op != ai.OInt {
			if h := e.St.Ghost(t, "how"); h != nil && h.Op == ai.OStr && h.S != "os.Open" {
				r = t
			}
		}
		return r == nil
	})
	return r
}

func isStd(f *ai.Term) bool { return strings.HasPrefix(f.S, "nn:os.Std") }

// fact reports whether a literal holds at an event.
func fact(e *ai.Event, l *ai.Term) bool  { return e.Facts.Holds(l) > 0 }
func nfact(e *ai.Event, l *ai.Term) bool { return e.Facts.Holds(l) < 0 }

// earlier lists the events before an event, the latest first.
func earlier(e *ai.Event, f func(q *ai.Event) bool) {
	for q := e.Prev; q != nil; q = q.Prev {
		if !f(q) {
			return
		}
	}
}

// safeName reports whether at an event a string is known to be one component of
// a path: not empty, without a separator, and neither . nor ..
func safeName(e *ai.Event, t *ai.Term) (bool, string) {
	if t.Op == ai.OStr {
		return t.S != "" && t.S != "." && t.S != ".." && !strings.Contains(t.S, "/"), "constant"
	}
	if t.Op == ai.OApp {
		switch t.S {
		case "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa":
			return true, ""
		case "fmt.Sprintf":
			return numberFormat(t), "formatted"
		case "cat":
			// a name with something harmless before or after it
			for i := 0; i < 2; i++ {
				if t.A[i].Op == ai.OStr && !strings.Contains(t.A[i].S, "/") && strings.Trim(t.A[i].S, ".") != "" && noSlash(e, t.A[1-i]) {
					return true, ""
				}
			}
		}
	}
	base := ai.App("path/filepath.Base", 0, t)
	isBase := fact(e, ai.Eq(base, t)) || fact(e, ai.Eq(ai.App("path.Base", 0, t), t))
	if !isBase && !nfact(e, ai.Eq(t, ai.Str(""))) && !nfact(e, ai.Eq(ai.StrLen(t), ai.I64(0))) {
		return false, "may be empty"
	}
	for _, s := range []string{".", ".."} {
		if !nfact(e, ai.Eq(t, ai.Str(s))) {
			return false, "may be " + s
		}
	}
	if isBase && nfact(e, ai.Eq(t, ai.Str("/"))) || noSlash(e, t) {
		return true, ""
	}
	return false, "may contain a path separator"
}

func noSlash(e *ai.Event, t *ai.Term) bool {
	if t.Op == ai.OStr {
		return !strings.Contains(t.S, "/")
	}
	if t.Op == ai.OApp {
		switch t.S {
		case "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa":
			return true
		case "fmt.Sprintf":
			return numberFormat(t)
		}
	}
	ok := false
	e.Facts.Each(func(l *ai.Term) bool {
		l.Walk(func(u *ai.Term) bool {
			if ok || u.Op != ai.OApp || len(u.A) != 2 || u.A[0] != t {
				return !ok
			}
			slash := u.A[1].Op == ai.OStr && u.A[1].S == "/" || u.A[1].Op == ai.OInt && u.A[1].K == '/'
			anyOf := u.A[1].Op == ai.OStr && strings.Contains(u.A[1].S, "/")
			switch u.S {
			case "strings.Contains", "strings.ContainsRune":
				ok = slash && fact(e, ai.Not(u))
			case "strings.ContainsAny":
				ok = anyOf && fact(e, ai.Not(u))
			case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte":
				ok = slash && fact(e, ai.Lt(true, u, ai.I64(0)))
			case "strings.IndexAny":
				ok = anyOf && fact(e, ai.Lt(true, u, ai.I64(0)))
			case "strings.Count":
				ok = slash && fact(e, ai.Eq(u, ai.I64(0)))
			}
			return !ok
		})
		return !ok
	})
	return ok
}

// numberFormat recognises a formatted string made of numbers and a constant
// prefix that makes it one component.
func numberFormat(t *ai.Term) bool {
	if len(t.A) < 1 || t.A[0].Op != ai.OStr || strings.Contains(t.A[0].S, "/") {
		return false
	}
	f := t.A[0].S
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("0123456789", f[i]) >= 0 {
			i++
		}
		if i >= len(f) || strings.IndexByte("dxXob%", f[i]) < 0 {
			return false
		}
		n++
	}
	if n == 0 {
		return f != "" && f != "." && f != ".."
	}
	// numbers only: nothing else formats as a number with these verbs
	ok := true
	for _, a := range t.A[1:] {
		a.Walk(func(u *ai.Term) bool {
			if u.Op == ai.OIface {
				tt, _ := u.X.(types.Type)
				b, is := tt.Underlying().(*types.Basic)
				if tt == nil || !is || b.Info()&types.IsInteger == 0 {
					ok = false
				}
				return false
			}
			return ok
		})
	}
	return ok
}

// joined takes a path apart into a directory and a name below it.
func joined(t *ai.Term) (dir, name *ai.Term, ok bool) {
	if t.Op != ai.OApp {
		return
	}
	switch t.S {
	case "path/filepath.Join", "path.Join":
		if len(t.A) == 1 && t.A[0].Op == ai.OApp && t.A[0].S == "list" && len(t.A[0].A) == 2 {
			return unIface(t.A[0].A[0]), unIface(t.A[0].A[1]), true
		}
	case "cat":
		// a path with something behind it
		if s := t.A[1]; s.Op == ai.OStr && s.S != "" && !strings.Contains(s.S, "/") {
			if d, n, ok := joined(t.A[0]); ok {
				return d, ai.App("cat", 0, n, s), true
			}
		}
		// dir + "/" + name
		l := t.A[0]
		if l.Op == ai.OApp && l.S == "cat" && l.A[1].Op == ai.OStr && l.A[1].S == "/" {
			return l.A[0], t.A[1], true
		}
		r := t.A[1]
		if r.Op == ai.OApp && r.S == "cat" && r.A[0].Op == ai.OStr && r.A[0].S == "/" {
			return t.A[0], r.A[1], true
		}
	}
	return
}

func unIface(t *ai.Term) *ai.Term {
	if t.Op == ai.OIface {
		return t.A[0]
	}
	return t
}

// Labels are properties that arguments of recursive functions have at all of
// their calls.
type Labels struct {
	v *View
	m map[string]map[string]bool // label and leaf

	at map[string]string // where an argument does not have it
}

func (v *View) labels() *Labels {
	return &Labels{v, map[string]map[string]bool{}, map[string]string{}}
}

// lost tells where an argument of a part lacks a label.
func (l *Labels) lost(p *Part, label string, t *ai.Term) string {
	r := ""
	if p.rec {
		for i, a := range p.args {
			leaves(a, fnShort(p.fn)+"#"+strconv.Itoa(i), func(path string, q *ai.Term) {
				if q == t && l.at[label+path] != "" {
					r = l.at[label+path]
				}
			})
		}
	}
	return r
}

func leaves(t *ai.Term, path string, f func(path string, t *ai.Term)) {
	if t.Op == ai.OStruct {
		for i, a := range t.A {
			leaves(a, path+"."+strconv.Itoa(i), f)
		}
		return
	}
	f(path, t)
}

// has reports whether a value in a part is an argument with a label.
func (l *Labels) has(p *Part, label string, t *ai.Term) bool {
	if !p.rec {
		return false
	}
	r := false
	for i, a := range p.args {
		leaves(a, fnShort(p.fn)+"#"+strconv.Itoa(i), func(path string, q *ai.Term) {
			if q == t && l.m[label][path] {
				r = true
			}
		})
	}
	return r
}

// each calls f for every argument with a label.
func (l *Labels) each(p *Part, label string, f func(t *ai.Term)) {
	if !p.rec {
		return
	}
	for i, a := range p.args {
		leaves(a, fnShort(p.fn)+"#"+strconv.Itoa(i), func(path string, q *ai.Term) {
			if l.m[label][path] {
				f(q)
			}
		})
	}
}

// infer finds the arguments that have a property at every call, given that
// they have it in the calling function.
func (l *Labels) infer(label string, holds func(p *Part, e *ai.Event, t *ai.Term) bool) {
	m := map[string]bool{}
	l.m[label] = m
	for _, p := range l.v.parts {
		if p.rec {
			for i, a := range p.args {
				leaves(a, fnShort(p.fn)+"#"+strconv.Itoa(i), func(path string, q *ai.Term) { m[path] = true })
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, p := range l.v.parts {
			for _, e := range p.evs {
				f := callee(e)
				if f == nil {
					continue
				}
				for i, a := range e.Args {
					leaves(a, fnShort(f)+"#"+strconv.Itoa(i), func(path string, t *ai.Term) {
						if m[path] && !holds(p, e, t) {
							delete(m, path)
							l.at[label+path] = l.v.c.pos(e.Instr.Pos())
							ch = true
						}
					})
				}
			}
		}
	}
}

func callee(e *ai.Event) *ssa.Function {
	if c, ok := e.Instr.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}
