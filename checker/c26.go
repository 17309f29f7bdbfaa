package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C26"] = checkC26 }

const (
	unreported = "not reported" // marks errors of operations that nobody was told about
	told       = "reported"
	unmapped   = "address not mapped" // marks results of mapping addresses
	onlyRead   = "only read"          // marks indexes opened for reading
	asStatus   = "as status"          // the status that an error was turned into
	execute    = "github.com/spf13/cobra.Command).Execute"
	wentOn     = "went on" // marks errors after which the program did something else
)

// Failures follows the errors of operations.
type Failures struct {
	c   *Check
	of  map[*ai.Term]*ai.Event
	ops map[string]int // operations seen to fail, by place
	bad map[string]bool
}

// operation reports whether a call is an operation on the device, the database
// or the destination (or a function of the program that may be one).
func operation(name string) bool {
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndex(n, ".")
	m := n[i+1:]
	switch {
	case m == "Lstat" || m == "Stat" && strings.HasPrefix(n, "os.Stat"):
		return false // these ask whether something exists
	case m == "Rollback":
		return false // has nothing to lose
	case strings.HasPrefix(n, "os."), strings.HasPrefix(n, "syscall."), strings.HasPrefix(n, "io."), strings.HasPrefix(n, "io/ioutil."), strings.HasPrefix(n, "path/filepath."),
		strings.HasPrefix(n, bboltPkg), strings.HasPrefix(n, nodefsPkg), strings.HasPrefix(n, module), strings.HasPrefix(n, "github.com/hanwen/go-fuse/v2/fuse.Server"), n == execute:
		return true
	}
	return false
}

// failed is the error that a call failed with.
func failed(e *ai.Event) *ai.Term {
	if e.Kind != "call" || e.Res == nil {
		return nil
	}
	r := e.Res
	if r.Op == ai.OTuple && len(r.A) > 0 {
		r = r.A[len(r.A)-1]
	}
	if r.Op == ai.OApp && strings.HasPrefix(r.S, "err:") {
		return r
	}
	return nil
}

func (h *Failures) note(x *ai.Exec, e *ai.Event) {
	if e.St == nil {
		return
	}
	switch {
	case e.Kind != "call" || e.Res == nil:
	case evIs(e, ixOpenReadOnly):
		if o := e.Res; o.Op == ai.OTuple && o.A[0] != ai.Nil {
			e.St.SetGhost(o.A[0], onlyRead, ai.I64(1))
		}
	case strings.HasSuffix(e.Name, "fuse.ToStatus") && len(e.Args) == 1:
		if e.St.Ghost(e.Args[0], unreported) != nil {
			e.St.SetGhost(e.Args[0], asStatus, e.Res)
		}
	}
	if toStderr(e) {
		fixed := true // the message is always the same
		for i, a := range printed(e, x) {
			fixed = fixed && (i == 0 || a.IsConst() || a.Op == ai.OStr)
		}
		var es []*ai.Term
		e.St.Ghosts(unreported, func(t, _ *ai.Term) {
			if t.S != "err:ignored" && !(fixed && e.St.Ghost(t, wentOn) != nil) {
				es = append(es, t)
			}
		})
		for _, t := range es {
			e.St.SetGhost(t, unreported, nil)
			e.St.SetGhost(t, told, ai.I64(1))
		}
		es = nil
		e.St.Ghosts(unmapped, func(t, _ *ai.Term) { es = append(es, t) })
		for _, t := range es {
			e.St.SetGhost(t, unmapped, nil)
		}
		return
	}
	if e.Kind == "recv" || isPrint(e) || e.Kind == "call" && operation(opName(e)) {
		var es []*ai.Term
		e.St.Ghosts(unreported, func(t, _ *ai.Term) { es = append(es, t) })
		for _, t := range es {
			e.St.SetGhost(t, wentOn, ai.I64(1))
		}
	}
	if e.Kind != "call" || !operation(opName(e)) {
		return
	}
	t := failed(e)
	if t == nil && ignored(e) {
		t = ai.App("err:ignored", 0, ai.Int(64, uint64(e.Instr.Pos())))
	}
	if t == nil || strings.HasSuffix(opName(e), ").Close") && !h.matters(e) {
		return
	}
	h.of[t] = e
	if strings.HasSuffix(opName(e), execute) {
		e.St.SetGhost(t, told, ai.I64(1)) // cobra prints the error
		return
	}
	if strings.HasSuffix(opName(e), ").ReadAt") && e.Res.Op == ai.OTuple {
		for _, a := range e.Args {
			if a.Op == ai.OSlice && same(e.St, e.Res.A[0], a.A[2]) {
				return // everything was read
			}
		}
	}
	e.St.SetGhost(t, unreported, ai.I64(1))
}

// opName is the name of the function that a call is of.
func opName(e *ai.Event) string {
	if ci, ok := e.Instr.(ssa.CallInstruction); ok {
		if n := staticName2(ci.Common()); n != "" && !strings.HasPrefix(n, module) {
			return n
		}
	}
	return e.Name
}

// ignored reports whether nobody looks at the error that a call returns.
func ignored(e *ai.Event) bool {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	rs := ci.Common().Signature().Results()
	n := rs.Len()
	if n == 0 || types.TypeString(rs.At(n-1).Type(), nil) != "error" {
		return false
	}
	i, ok := ci.(*ssa.Call)
	if !ok || i.Referrers() == nil {
		return true // deferred
	}
	for _, r := range *i.Referrers() {
		x, ok := r.(*ssa.Extract)
		if n == 1 || !ok {
			return false
		}
		if x.Index == n-1 && x.Referrers() != nil && len(*x.Referrers()) > 0 {
			return false
		}
	}
	return true
}

// matters reports whether closing something may lose what was written.
func (h *Failures) matters(e *ai.Event) bool {
	if len(e.Args) == 0 {
		return false
	}
	switch o := e.Args[0]; {
	case strings.Contains(opName(e), "os.File"):
		return writableFile(e, o) != nil
	case strings.Contains(opName(e), indexPkg):
		return e.St.Ghost(o, onlyRead) == nil
	}
	return true
}

// dropped lists the errors that were not reported.
func (h *Failures) dropped(st *ai.State, ret *ai.Term) []*ai.Term {
	var r []*ai.Term
	st.Ghosts(unreported, func(t, v *ai.Term) {
		// other values belong to an earlier iteration, which was looked at
		if !isInt(v, 1) || h.of[t] == nil || ret != nil && termContains(ret, t) {
			return
		}
		if s := st.Ghost(t, asStatus); s != nil && ret != nil && termContains(ret, s) {
			return
		}
		r = append(r, t)
	})
	return r
}

// tells reports whether what a function returns says that it failed.
func tells(st *ai.State, f *ssa.Function, ret *ai.Term) bool {
	if f == nil || ret == nil {
		return false
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		v := ret
		if ret.Op == ai.OTuple && i < len(ret.A) {
			v = ret.A[i]
		}
		t := rs.At(i).Type()
		switch {
		case types.TypeString(t, nil) == "error":
			if notHolds(st, ai.Eq(v, ai.Nil)) {
				return true
			}
		case strings.HasSuffix(types.TypeString(t, nil), "fuse.Status"):
			if notHolds(st, ai.Eq(v, ai.Int(v.W, 0))) {
				return true
			}
		}
	}
	return false
}

// mayFail reports whether a function calls operations that may fail.
func mayFail(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			rs := ci.Common().Signature().Results()
			if rs.Len() == 0 || types.TypeString(rs.At(rs.Len()-1).Type(), nil) != "error" {
				continue
			}
			if n := staticName2(ci.Common()); operation(n) && !strings.HasPrefix(strings.TrimLeft(n, "(*"), module) {
				return true
			}
		}
	}
	return false
}

func checkC26(c *Check) {
	c.Rules = map[string]string{
		"reported": "on every path after an operation failed, before the function ends, a message is printed to standard error, or an error or a status of failure is returned",
		"next":     "the same before the next iteration of a loop, unless the error is kept",
		"exit":     "a program that ends because something failed ends with a status that is not zero, after a message",
	}
	c.Assume = append(c.Assume,
		"asking whether something exists (Stat, Lstat), rolling back, and closing what was only read have nothing to report",
		"a message printed after the failure is about it, unless it is always the same and the program did something else in between",
		"a read that gives all bytes has not failed, whatever error comes with it")
	h := &Failures{c: c, of: map[*ai.Term]*ai.Event{}, ops: map[string]int{}, bad: map[string]bool{}}
	c.onEvent = h.note
	ai.SplitReads = true
	onPhysical = func(cl *ai.Call, st *ai.State, ok *ai.Term) {
		st.SetGhost(ok, unmapped, ai.I64(1))
		h.of[ok] = &ai.Event{Kind: "call", Name: cl.Name, Args: cl.Args, Instr: cl.Instr, St: st, Fn: cl.Frame.Fn}
	}
	ps := c.programs(mayFail)
	c.onEvent, onPhysical, ai.SplitReads = nil, nil, false
	for _, p := range ps.parts {
		h.part(p)
	}
	var ks []string
	for k := range h.ops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !h.bad[k] {
			c.Ob(true, "reported", k, "", "")
		}
	}
	c.Ob(len(ks) >= 20, "reported", "btrfscue", "", "only %d operations that may fail were found", len(ks))
	c.Counts["operations that may fail"] = len(ks)
}

// lost lists the addresses that may not be mapped where nobody was told about
// it.
func (h *Failures) lost(p *Prog, st *ai.State) []*ai.Term {
	var r []*ai.Term
	if p.handler {
		return nil // what is kept for later reads is decided by C16
	}
	st.Ghosts(unmapped, func(t, v *ai.Term) {
		// other values belong to an earlier iteration, which was looked at
		if isInt(v, 1) && !holds(st, t) {
			r = append(r, t)
		}
	})
	return r
}

// exitCode is the status that the program ends with.
func exitCode(st *ai.State) *ai.Term {
	es := events(st)
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].Kind == "exit" && len(es[i].Args) == 1 {
			return es[i].Args[0]
		}
	}
	return nil
}

func (h *Failures) part(p *Prog) {
	c := h.c
	name := "the " + p.cmd + " command"
	if p.fn != nil {
		name = fnShort(p.fn)
	}
	for _, e := range p.all {
		if e.Kind == "call" && operation(opName(e)) && (failed(e) != nil && h.of[failed(e)] != nil || ignored(e)) {
			w, _ := eventWhere(c, e)
			h.ops[w]++
		}
	}
	fail := func(rule string, t *ai.Term, format string, a ...interface{}) {
		w, pos := eventWhere(c, h.of[t])
		h.bad[w] = true
		c.Ob(false, rule, w, pos, format, a...)
	}
	for _, o := range p.outs {
		if infeasible(o.St) {
			continue
		}
		switch o.Kind {
		case "exit":
			c.Counts["exits"]++
			if code := exitCode(o.St); code != nil && !notHolds(o.St, ai.Eq(code, ai.Int(code.W, 0))) {
				o.St.Ghosts(told, func(t, _ *ai.Term) {
					fail("exit", t, "the program may end with status 0 after a message about a failed operation")
				})
			}
			for _, t := range h.dropped(o.St, nil) {
				fail("exit", t, "the program may end without a message about a failed operation")
			}
		case "return":
			c.Counts["ends"]++
			if tells(o.St, p.fn, o.Ret) {
				continue
			}
			if p.cmd == "main" {
				o.St.Ghosts(told, func(t, _ *ai.Term) {
					fail("exit", t, "the program may end with status 0 after a message about a failed operation")
				})
			}
			for _, t := range append(h.dropped(o.St, o.Ret), h.lost(p, o.St)...) {
				fail("reported", t, "the failure may not be reported when %s ends", name)
			}
		}
	}
	for _, l := range p.loops {
		for _, b := range l.Backs {
			if infeasible(b.Path.St) {
				continue
			}
			c.Counts["iterations"]++
			for _, t := range append(h.dropped(b.Path.St, nil), h.lost(p, b.Path.St)...) {
				if l.Head.Ghost(t, unreported) != nil || l.Head.Ghost(t, unmapped) != nil {
					continue
				}
				kept := false
				for _, v := range b.Next {
					kept = kept || termContains(v, t)
				}
				if !kept {
					fail("next", t, "the failure may not be reported when the next iteration begins")
				}
			}
		}
	}
}
