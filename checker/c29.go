package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C29"] = checkC29 }

// Marks of what was opened: whether it is to be closed still, and what took it
// over.
const (
	toClose   = "to be closed"
	takenOver = "taken over"
)

// closable tells the types of what needs to be closed.
func closable(t types.Type) string {
	switch types.TypeString(t, nil) {
	case "*os.File":
		return "file"
	case "*" + bboltPkg + ".DB":
		return "database"
	case "*" + module + "/" + indexPkg + ".Index":
		return "index"
	}
	return ""
}

// opens reports whether a call of a function opens something.
func opens(f *types.Signature, name string) bool {
	if f == nil || f.Recv() != nil || f.Results().Len() == 0 {
		return false
	}
	return closable(f.Results().At(0).Type()) != "" && !strings.HasSuffix(name, "nodefs")
}

// Handles follows what is opened and closed.
type Handles struct {
	c    *Check
	of   map[*ai.Term]*ai.Event // where an object was opened
	kind map[*ai.Term]string
	n    int
	dbs  int
}

func (h *Handles) note(x *ai.Exec, e *ai.Event) {
	if e.Kind != "call" || e.St == nil || e.Instr == nil {
		return
	}
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return
	}
	sig := ci.Common().Signature()
	i := strings.LastIndex(e.Name, ".")
	switch m := e.Name[i+1:]; {
	case m == "Close" && len(e.Args) > 0:
		if e.St.Ghost(e.Args[0], toClose) != nil {
			e.St.SetGhost(e.Args[0], toClose, ai.Bool(false))
		}
	case m == "NewLoopbackFile" && len(e.Args) == 1 && e.Res != nil:
		if e.St.Ghost(e.Args[0], toClose) != nil {
			e.St.SetGhost(e.Args[0], takenOver, e.Res)
		}
	case strings.HasPrefix(e.Name, "(") || e.Res == nil || !opens(sig, e.Name):
	default:
		o := e.Res
		if o.Op == ai.OTuple {
			o = o.A[0]
		}
		if o == ai.Nil {
			return
		}
		e.St.SetGhost(o, toClose, ai.Bool(true))
		h.of[o] = e
		h.kind[o] = closable(sig.Results().At(0).Type())
	}
}

// left lists what is still open and was not handed to anybody by values that
// stay in use.
func (h *Handles) left(st *ai.State, own ...*ai.Term) []*ai.Term {
	var open []*ai.Term
	st.Ghosts(toClose, func(o, v *ai.Term) {
		if v.True() {
			open = append(open, o)
		}
	})
	if len(open) == 0 {
		return nil
	}
	seen := st.Reachable(own...)
	var r []*ai.Term
	for _, o := range open {
		t := st.Ghost(o, takenOver)
		if !seen[o] && !(t != nil && seen[t]) {
			r = append(r, o)
		}
	}
	return r
}

func checkC29(c *Check) {
	c.Rules = map[string]string{
		"closed":      "every file, database and index that is opened is closed where the function that opened it ends, or it is part of what is returned",
		"iteration":   "what is opened in an iteration of a loop is closed before the next one",
		"transaction": "when a database is closed, all its transactions have ended",
		"index":       "closing an index closes its database in every case",
		"unlocked":    "no lock is held where a function that the library or the program's start calls ends",
	}
	c.Assume = append(c.Assume, "what fails to open leaves nothing open",
		"a file given to NewLoopbackFile is closed when the library releases the resulting file",
		"the system closes what is open when the process ends")
	h := &Handles{c: c, of: map[*ai.Term]*ai.Event{}, kind: map[*ai.Term]string{}}
	c.onEvent = func(x *ai.Exec, e *ai.Event) {
		h.note(x, e)
		h.closing(e)
	}
	isOpen := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && opens(g.Signature, g.String()) && !c.W.inModuleFn(g) {
						return true
					}
				}
			}
		}
		return refers(f, func(n string) bool { return strings.HasSuffix(n, bboltPkg+".DB).Close") })
	}
	ps := c.programs(isOpen)
	h.closes()
	c.onEvent = nil
	for _, p := range ps.parts {
		h.part(p)
	}
	c.Ob(h.n >= 8, "closed", "btrfscue", "", "only %d places where something is opened were found", h.n)
	c.Ob(h.dbs > 0, "transaction", "btrfscue", "", "no database is closed")
	c.Counts["places where something is opened"] = h.n
}

func (w *World) inModuleFn(f *ssa.Function) bool {
	return strings.HasPrefix(pkgOf(f), module) && len(f.Blocks) > 0
}

func (h *Handles) part(p *Prog) {
	c := h.c
	at := func(o *ai.Term) (string, string) {
		w, pos := eventWhere(c, h.of[o])
		return w, pos
	}
	opened := map[*ai.Event]*ai.Term{}
	var order []*ai.Event
	for o, e := range h.of {
		for _, q := range p.all {
			if q == e {
				opened[e] = o
			}
		}
	}
	for _, e := range p.all {
		if opened[e] != nil {
			order = append(order, e)
			h.n++
		}
	}
	name := "the " + p.cmd + " command"
	if p.fn != nil {
		name = fnShort(p.fn)
	}
	bad := map[*ai.Term]bool{}
	for _, o := range p.outs {
		if o.Kind != "return" || infeasible(o.St) {
			continue
		}
		var own []*ai.Term
		if o.Ret != nil {
			own = append(own, o.Ret)
		}
		for _, t := range h.left(o.St, own...) {
			bad[t] = true
			w, pos := at(t)
			c.Ob(false, "closed", w, pos, "a %s may still be open when %s returns", h.kind[t], name)
		}
		o.St.Ghosts("held", func(m, v *ai.Term) {
			c.Ob(!v.True(), "unlocked", name, "", "a lock is still held when the function returns")
		})
		c.Counts["ends"]++
	}
	for _, l := range p.loops {
		for _, b := range l.Backs {
			if infeasible(b.Path.St) {
				continue
			}
			for _, t := range h.left(b.Path.St) {
				if g := l.Head.Ghost(t, toClose); g != nil && g.True() {
					continue
				}
				bad[t] = true
				w, pos := at(t)
				c.Ob(false, "iteration", w, pos, "a %s may still be open when the next iteration begins", h.kind[t])
			}
			c.Counts["iterations"]++
		}
	}
	for _, e := range order {
		if !bad[opened[e]] {
			w, pos := eventWhere(c, e)
			c.Ob(true, "closed", w, pos, "")
		}
	}
}

// closing checks that the transactions of a database have ended when it is
// closed.
func (h *Handles) closing(e *ai.Event) {
	if e.Kind != "call" || !evIs(e, bboltPkg+".DB).Close") || e.St == nil {
		return
	}
	w, pos := eventWhere(h.c, e)
	ok := true
	e.St.Ghosts("db", func(tx, db *ai.Term) {
		if same(e.St, db, e.Args[0]) {
			if a := e.St.Ghost(tx, "active"); a != nil && !notHolds(e.St, a) {
				ok = false
			}
		}
	})
	h.dbs++
	h.c.Ob(ok, "transaction", w, pos, "a database is closed while a transaction is open")
}

// closes checks that closing an index closes the database.
func (h *Handles) closes() {
	c := h.c
	f := c.Need(indexPkg + ":Index.Close")
	if f == nil {
		return
	}
	for _, kind := range []string{"idle", "write", "read"} {
		x, st := c.W.Exec()
		x.OnEvent = h.closing
		args := x.Params(f)
		ix := c.indexObj(args[0])
		if ix == nil {
			c.Fail(fnShort(f), "the index has no database, transaction and bucket fields")
			return
		}
		ix.state(x, st, kind)
		outs := x.Run(f, args, st)
		c.Errs(x, fnShort(f))
		for _, o := range outs {
			if infeasible(o.St) {
				continue
			}
			g := o.St.Ghost(ix.DB, "open")
			if !c.Ob(o.Kind == "return" && g != nil && notHolds(o.St, g), "index", fnShort(f), c.pos(f.Pos()), "closing an index may leave its database open") {
				continue
			}
			if ix.Tx != ai.Nil {
				a := o.St.Ghost(ix.Tx, "active")
				c.Ob(a != nil && notHolds(o.St, a), "transaction", fnShort(f), c.pos(f.Pos()), "closing an index may leave its transaction open")
			}
		}
	}
	c.saw(f)
}
