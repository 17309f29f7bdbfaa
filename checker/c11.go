package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C11"] = checkC11 }

// txEffects follows the transactions on a path.
type txEffects struct {
	active, ended map[*ai.Term]bool
	begun         []*ai.Term
	puts          map[*ai.Term]int
	committed     map[*ai.Term]bool
	rolled        map[*ai.Term]bool
}

func errOf(res *ai.Term) *ai.Term {
	if res != nil && res.Op == ai.OTuple && len(res.A) > 0 {
		return res.A[len(res.A)-1]
	}
	return res
}

func checkC11(c *Check) {
	c.Rules = map[string]string{
		"put":     "an item is only put into a bucket of an open, writable transaction",
		"errors":  "an operation of the index fails if one of the database operations it makes fails, and returns that error",
		"pending": "a transaction is never forgotten: after each operation it is either ended or still the index's transaction",
		"commit":  "a transaction that holds insertions is ended by committing it",
		"close":   "closing the index commits the pending transaction and closes the database",
		"batch":   "the number of insertions pending in one transaction is bounded",
		"raw":     "a raw transaction is rolled back if its function fails and committed if it succeeds",
		"open":    "an opened index has an open transaction of the requested kind",
		"recon":   "recon ends with non-zero status if an insertion or closing the index fails, and closes the index otherwise",
	}
	for _, n := range []string{"InsertItem", "Commit", "Close", "RawTx"} {
		f := c.Need(indexPkg + ":Index." + n)
		if f == nil {
			continue
		}
		c.txUnit(f, n)
	}
	c.openUnit()
	c.reconCloses()
}

func (c *Check) txUnit(f *ssa.Function, name string) {
	where, pos := fnShort(f), c.pos(f.Pos())
	var snaps map[*ai.Event]bool // put events inside an active writable transaction
	var cnt *ai.Term
	cntField := -1
	if i, t := fieldOfType(c.namedType(indexPkg, "Index"), "int"); i >= 0 {
		cntField = i
		_ = t
	}
	kinds := map[string]int{}
	for _, kind := range []string{"idle", "write", "read"} {
		if name == "RawTx" && kind == "read" {
			continue // documented to need an index opened for writing
		}
		snaps = map[*ai.Event]bool{}
		x, st := c.W.Exec()
		args := x.Params(f)
		ix := c.indexObj(args[0])
		if ix == nil {
			c.Fail(where, "the index has no database, transaction and bucket fields")
			return
		}
		ix.state(x, st, kind)
		if name == "InsertItem" {
			x.Assume(st, ai.Eq(args[3].A[2], ai.I64(25)))
			x.Assume(st, ai.Le(true, ai.I64(101), args[2].A[2]))
		}
		if cntField >= 0 {
			cnt = st.Load(ai.FieldAddr(args[0], cntField), intType)
			x.Assume(st, ai.Le(true, ai.I64(0), cnt))
			x.Assume(st, ai.Le(true, cnt, ai.I64(1<<30)))
			if kind == "idle" {
				x.Assume(st, ai.Eq(cnt, ai.I64(0)))
			}
		}
		if name == "RawTx" {
			x.Assume(st, ai.Not(ai.Eq(args[1], ai.Nil)))
		}
		x.OnEvent = func(e *ai.Event) {
			if e.Kind != "call" || !evIs(e, "Bucket).Put", "Bucket).Delete") || e.St == nil {
				return
			}
			tx := e.St.Ghost(e.Args[0], "tx")
			if tx == nil {
				return
			}
			a, w := e.St.Ghost(tx, "active"), e.St.Ghost(tx, "writable")
			if a != nil && a.True() && w != nil && w.True() {
				snaps[e] = true
			}
		}
		var rawCall = func(e *ai.Event) bool {
			return name == "RawTx" && e.Kind == "call" && len(e.Args) == 3 && isFuncCall(e)
		}
		outs := x.Run(f, args, st)
		c.saw(f)
		c.Errs(x, where)
		c.Counts["paths"] += len(outs)
		for _, o := range outs {
			if !c.Ob(o.Kind == "return", "errors", where+" returns", pos, "ends with %s", o.Kind) {
				continue
			}
			s := o.St
			ret := errOf(o.Ret)
			eff := txEffects{active: map[*ai.Term]bool{}, ended: map[*ai.Term]bool{}, puts: map[*ai.Term]int{}, committed: map[*ai.Term]bool{}, rolled: map[*ai.Term]bool{}}
			if ix.Tx != ai.Nil {
				eff.active[ix.Tx] = true
				if kind == "write" {
					eff.puts[ix.Tx] = 1 // possibly earlier insertions
				}
			}
			var failed *ai.Event
			var raw *ai.Event
			dbClosed := false
			for _, e := range events(s) {
				if e.Kind == "loop" || e.Kind == "join" {
					continue
				}
				ep := ""
				if e.Instr != nil {
					ep = c.pos(e.Instr.Pos())
				}
				switch {
				case e.Kind == "txbegin":
					eff.active[e.Args[0]] = true
					eff.begun = append(eff.begun, e.Args[0])
				case e.Kind == "txend":
					delete(eff.active, e.Args[0])
					eff.ended[e.Args[0]] = true
					if e.Name == "commit" {
						eff.committed[e.Args[0]] = true
					} else {
						eff.rolled[e.Args[0]] = true
					}
				case evIs(e, "DB).Begin"):
					if e.Res != nil && e.Res.Op == ai.OTuple && same(s, e.Res.A[1], ai.Nil) {
						eff.active[e.Res.A[0]] = true
						eff.begun = append(eff.begun, e.Res.A[0])
					}
				case evIs(e, "Tx).Commit"):
					c.Ob(eff.active[e.Args[0]], "commit", where+" order", ep, "commits a transaction that is not open")
					c.Ob(!dbClosed, "close", where+" order", ep, "commits after the database has been closed")
					delete(eff.active, e.Args[0])
					eff.ended[e.Args[0]] = true
					eff.committed[e.Args[0]] = true
				case evIs(e, "Tx).Rollback"):
					delete(eff.active, e.Args[0])
					eff.ended[e.Args[0]] = true
					eff.rolled[e.Args[0]] = true
				case evIs(e, "Bucket).Put"):
					c.Ob(snaps[e], "put", where, ep, "puts an item outside of an open writable transaction")
					if tx := s.Ghost(e.Args[0], "tx"); tx != nil {
						eff.puts[tx]++
					}
				case evIs(e, "DB).Close"):
					dbClosed = true
				case rawCall(e):
					raw = e
				}
				r := errOf(e.Res)
				if r != nil && e.Kind == "call" && r.T == nil && !evIs(e, "Tx).Rollback") || e.Kind == "call" && evIs(e, "Tx).Commit", "Tx).Rollback", "DB).Begin", "Bucket).Put", "DB).Close", "DB).Update") {
					if r != nil && r != ai.Nil && !same(s, r, ai.Nil) && failed == nil && !evIs(e, "fmt.Errorf") {
						failed = e
					}
				}
			}
			if failed != nil && !(raw != nil && evIs(failed, "Tx).Rollback")) {
				ep := c.pos(failed.Instr.Pos())
				c.Ob(!same(s, ret, ai.Nil), "errors", where+" "+failed.Name, ep, "succeeds although %s failed", failed.Name)
				c.Ob(same(s, ret, ai.Nil) || opFailed(s, ret), "errors", where+" returned", ep, "returns %v, not the error of a failed operation", ret)
			}
			tx := ix.tx(s)
			if name != "Close" {
				all := append([]*ai.Term{}, eff.begun...)
				if ix.Tx != ai.Nil {
					all = append(all, ix.Tx)
				}
				for _, t := range all {
					if eff.active[t] {
						c.Ob(same(s, tx, t), "pending", where, pos, "an open transaction is forgotten")
						b := ix.bucket(s)
						g := s.Ghost(b, "tx")
						c.Ob(g != nil && same(s, g, t), "pending", where+" bucket", pos, "the index's bucket is not that of its transaction")
					} else {
						c.Ob(!same(s, tx, t), "pending", where+" ended", pos, "the index keeps a transaction that has ended")
					}
				}
			}
			for t, n := range eff.puts {
				if n > 0 && eff.ended[t] && !(raw != nil && !same(s, ret, ai.Nil)) {
					c.Ob(eff.committed[t], "commit", where, pos, "a transaction with insertions is ended without committing it")
				}
			}
			switch name {
			case "InsertItem":
				puts := named(events(s), "Bucket).Put")
				if same(s, ret, ai.Nil) {
					c.Ob(len(puts) == 1, "put", where+" stored", pos, "succeeds after storing %d items", len(puts))
				}
				if cntField >= 0 && same(s, ret, ai.Nil) && tx != ai.Nil && eff.active[tx] {
					kinds["pending"]++
					after := s.Load(ai.FieldAddr(args[0], cntField), intType)
					fresh := len(eff.begun) > 0
					if !fresh {
						c.Ob(holds(s, ai.Lt(true, cnt, after)), "batch", where+" counts", pos, "an insertion is not counted")
					}
					c.Ob(holds(s, ai.Le(true, after, ai.I64(1<<20))), "batch", where, pos, "more than %d insertions can be pending", 1<<20)
				}
			case "Commit":
				if same(s, ret, ai.Nil) && kind != "idle" {
					c.Ob(eff.committed[ix.Tx], "commit", where+" commits", pos, "succeeds without committing the open transaction")
				}
			case "Close":
				c.Ob(dbClosed, "close", where+" database", pos, "the database is left open")
				if ix.Tx != ai.Nil {
					c.Ob(eff.ended[ix.Tx], "close", where+" transaction", pos, "the transaction is left open")
				}
				if kind == "write" && same(s, ret, ai.Nil) {
					c.Ob(eff.committed[ix.Tx], "close", where+" commits", pos, "succeeds without committing pending insertions")
				}
				if kind == "read" {
					c.Ob(!eff.committed[ix.Tx], "close", where+" read-only", pos, "commits a read-only transaction, which fails")
				}
			case "RawTx":
				if raw == nil {
					c.Ob(!same(s, ret, ai.Nil), "raw", where+" calls", pos, "succeeds without calling the function")
					continue
				}
				t := raw.Args[1]
				ok := errOf(raw.Res)
				if same(s, ok, ai.Nil) {
					if same(s, ret, ai.Nil) {
						c.Ob(eff.committed[t], "raw", where+" success", pos, "succeeds without committing")
					}
					c.Ob(!eff.rolled[t], "raw", where+" kept", pos, "rolls back although the function succeeded")
				} else {
					kinds["rawfail"]++
					c.Ob(eff.rolled[t] && !eff.committed[t], "raw", where+" failure", pos, "what a failed function did is kept")
					c.Ob(!same(s, ret, ai.Nil), "raw", where+" error", pos, "the error of the function is dropped")
				}
				g := s.Ghost(t, "writable")
				c.Ob(g != nil && g.True(), "raw", where+" writable", pos, "the function gets a transaction that cannot be written to")
			}
		}
	}
	if name == "InsertItem" {
		c.Ob(cntField >= 0 && kinds["pending"] > 0, "batch", where+" analysed", pos, "no counter of pending insertions found")
	}
	if name == "RawTx" {
		c.Ob(kinds["rawfail"] > 0, "raw", where+" analysed", pos, "the call of the function was not found")
	}
}

// isFuncCall reports whether an event is the call of a function value.
func isFuncCall(e *ai.Event) bool {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() {
		return false
	}
	switch ci.Common().Value.(type) {
	case *ssa.Function, *ssa.Builtin:
		return false
	}
	_, ok = ci.Common().Value.Type().Underlying().(*types.Signature)
	return ok
}

// openUnit checks the state of an index that has been opened.
func (c *Check) openUnit() {
	f := c.Need(indexPkg + ":Open")
	ot := c.namedType(indexPkg, "Options")
	if f == nil || ot == nil {
		return
	}
	where, pos := fnShort(f), c.pos(f.Pos())
	for _, ro := range []bool{false, true} {
		x, st := c.W.Exec()
		args := x.Params(f)
		x.Assume(st, ai.Not(ai.Eq(args[2], ai.Nil)))
		i, t := fieldNamed(ot, "ReadOnly")
		if i < 0 {
			c.Fail(where, "option ReadOnly not found")
			return
		}
		st.Store(ai.FieldAddr(args[2], i), ai.Bool(ro), t)
		outs := x.Run(f, args, st)
		c.Errs(x, where)
		n := 0
		for _, o := range outs {
			if o.Kind != "return" || !same(o.St, o.Ret.A[1], ai.Nil) {
				continue
			}
			n++
			s := o.St
			ix := c.indexObj(o.Ret.A[0])
			if ix == nil {
				c.Fail(where, "the index has no database, transaction and bucket fields")
				return
			}
			tx, b := ix.tx(s), ix.bucket(s)
			a, w, bt := s.Ghost(tx, "active"), s.Ghost(tx, "writable"), s.Ghost(b, "tx")
			c.Ob(a != nil && a.True(), "open", where+" transaction", pos, "the index has no open transaction")
			c.Ob(w == ai.Bool(!ro), "open", where+" kind", pos, "the transaction is not of the requested kind")
			c.Ob(bt == tx && bt != nil, "open", where+" bucket", pos, "the index's bucket does not belong to its transaction")
			c.Ob(s.Ghost(tx, "db") == s.Load(ai.FieldAddr(ix.Ptr, ix.fdb), ix.tdb), "open", where+" database", pos, "the transaction does not belong to the index's database")
		}
		c.Ob(n > 0, "open", where+" succeeds", pos, "opening never succeeds")
	}
}

// reconCloses checks how recon treats failures of the index.
func (c *Check) reconCloses() {
	r := c.recon(16384)
	if r == nil {
		return
	}
	nIns, nClose := 0, 0
	visit := func(st *ai.State, kind string, ret *ai.Term) {
		closed := false
		opened := false
		for _, e := range events(st) {
			if !evIs(e, "Index).InsertItem", "Index).Close", "Index).Commit", "index.Open") {
				continue
			}
			ep := c.pos(e.Instr.Pos())
			bad := !same(st, errOf(e.Res), ai.Nil)
			switch {
			case evIs(e, "index.Open"):
				opened = true
			case evIs(e, "Index).Close"):
				closed = true
				nClose++
			case evIs(e, "Index).InsertItem"):
				nIns++
				c.Ob(!closed, "recon", "recon order", ep, "items are stored after the index was closed")
			}
			if bad {
				c.Ob(kind == "exit" && ret != nil && notHolds(st, ai.Eq(ret, ai.Int(ret.W, 0))), "recon", "recon status after "+e.Name, ep, "recon goes on or exits successfully after %s failed", e.Name)
				rep := false
				for _, q := range since(st, e) {
					if toStderr(q) && prints(st, q, errOf(e.Res)) {
						rep = true
					}
				}
				c.Ob(rep || kind != "exit", "recon", "recon message after "+e.Name, ep, "the error of %s is not shown", e.Name)
			}
		}
		if kind == "return" || kind == "exit" && ret != nil && !notHolds(st, ai.Eq(ret, ai.Int(ret.W, 0))) {
			c.Ob(opened && closed, "recon", "recon closes", "", "recon ends successfully without closing the index")
		}
	}
	for _, o := range r.outs {
		visit(o.St, o.Kind, o.Ret)
	}
	for _, l := range r.loops {
		for _, b := range l.Backs {
			visit(b.Path.St, "back", nil)
		}
	}
	c.Ob(nIns > 0 && nClose > 0, "recon", "recon stores", "", "recon stores nothing")
}
