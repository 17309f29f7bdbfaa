package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C09"] = checkC09 }

var metaLayout = []struct {
	name, field string
	off         int64
	n           int
}{{"Version", "", 0, 8}, {"BlockSize", "BlockSize", 8, 4}, {"FSID", "FSID", 12, 16}, {"Generation", "Generation", 28, 8}}

const metaLen = 36

func checkC09(c *Check) {
	c.Rules = map[string]string{
		"accept":   "opening succeeds only for a new database opened for writing, or if the recorded version, block size and id are the requested ones",
		"refuse":   "a database that matches is not refused; every refusal is an error of an operation or a mismatch",
		"record":   "a new database records version, block size, id and generation in the layout of the header record, and each accessor reads it back",
		"unharmed": "nothing is written to a database that has a header record, and nothing at all when opened for reading",
		"mode":     "the database file is opened at the given path, for reading only if so requested; opening for reading needs an existing file",
		"handle":   "the index returned has the generation that was asked for",
	}
	ot := c.namedType(indexPkg, "Options")
	ixt := c.namedType(indexPkg, "Index")
	ver, _, ok := c.P.constOf(indexPkg, "MetadataVersion")
	if ot == nil || ixt == nil || !ok {
		c.Fail(indexPkg, "Options, Index or MetadataVersion not found")
		return
	}
	open, openRO := c.Need(indexPkg+":Open"), c.Need(indexPkg+":OpenReadOnly")
	if open == nil || openRO == nil {
		return
	}
	type combo struct {
		f         *ssa.Function
		ro, allow bool
		nilOpt    bool
	}
	combos := []combo{{open, false, false, false}, {open, false, true, false}, {open, true, false, false}, {open, true, true, false},
		{open, true, false, true}, {openRO, true, false, true}}
	for _, k := range combos {
		x, st := c.W.Exec()
		args := x.Params(k.f)
		where := fnShort(k.f)
		var o *ai.Term
		opt := func(st *ai.State, n string) *ai.Term {
			i, t := fieldNamed(ot, n)
			if i < 0 || o == nil || o == ai.Nil {
				return nil
			}
			return st.Load(ai.FieldAddr(o, i), t)
		}
		if k.f == open {
			o = args[2]
			if k.nilOpt {
				x.Assume(st, ai.Eq(o, ai.Nil))
				args[2] = ai.Nil
				o = nil
				where += " without options"
			} else {
				x.Assume(st, ai.Not(ai.Eq(o, ai.Nil)))
				for n, v := range map[string]bool{"ReadOnly": k.ro, "AllowOldVersion": k.allow} {
					i, t := fieldNamed(ot, n)
					if i < 0 {
						c.Fail(where, "option %s not found", n)
						return
					}
					st.Store(ai.FieldAddr(o, i), ai.Bool(v), t)
					if v {
						where += " " + n
					}
				}
			}
		}
		pos := c.pos(k.f.Pos())
		want := map[string]*ai.Term{"Version": ai.Int(64, ver)}
		if o != nil {
			if v := opt(st, "BlockSize"); v != nil {
				want["BlockSize"] = ai.Trunc(32, v)
			}
			want["FSID"] = opt(st, "FSID")
			want["Generation"] = opt(st, "Generation")
		}
		outs := x.Run(k.f, args, st)
		c.saw(k.f)
		c.Errs(x, where)
		good, fails := 0, 0
		for _, out := range outs {
			if out.Kind != "return" {
				c.Ob(false, "accept", where, pos, "ends with %s", out.Kind)
				continue
			}
			s := out.St
			var m *ai.Term
			var puts []*ai.Event
			changed, commit, isnew, opened, stat := false, false, false, false, false
			for _, e := range events(s) {
				switch {
				case evIs(e, "Bucket).Get") && e.Res != nil && metaKey(s, e.Args[1]):
					m = e.Res
				case evIs(e, "Bucket).Put"):
					c.Ob(metaKey(s, e.Args[1]), "unharmed", where, c.pos(e.Instr.Pos()), "writes something else than the header record")
					puts = append(puts, e)
					changed = true
				case evIs(e, "Bucket).Delete", "DeleteBucket"):
					c.Ob(false, "unharmed", where, c.pos(e.Instr.Pos()), "deletes from the database")
				case evIs(e, "CreateBucket", "CreateBucketIfNotExists"):
					changed = true
				case e.Kind == "txend" && e.Name == "commit":
					commit = true
				case evIs(e, "os.Stat", "os.Lstat") && e.Res != nil && e.Res.Op == ai.OTuple && same(s, e.Res.A[1], ai.Nil):
					if same(s, e.Args[0], args[0]) {
						stat = true
					}
				case e.Name == bboltPkg+".Open":
					opened = true
					ro := ai.Bool(false)
					if e.Args[2] != ai.Nil {
						if i, t := fieldNamed(argType(e, 2), "ReadOnly"); i >= 0 {
							ro = s.Load(ai.FieldAddr(e.Args[2], i), t)
						}
					}
					c.Ob(same(s, e.Args[0], args[0]), "mode", where, c.pos(e.Instr.Pos()), "opens %v", e.Args[0])
					c.Ob(ro == ai.Bool(k.ro), "mode", where+" read-only", c.pos(e.Instr.Pos()), "opens with ReadOnly %v", ro)
					if k.f == openRO {
						c.Ob(stat, "mode", where+" existing file", c.pos(e.Instr.Pos()), "the database is opened without checking that the file exists")
					}
				}
			}
			// a new database: nothing recorded
			switch {
			case m == nil, m == ai.NilSlice, holds(s, ai.Eq(m, ai.NilSlice)), m.Op == ai.OSlice && holds(s, m.A[4]):
				isnew = true
			}
			if changed {
				c.Ob(!k.ro, "unharmed", where+" read-only", pos, "changes a database opened for reading")
				c.Ob(isnew, "unharmed", where, pos, "changes a database that has a header record")
			}
			match := map[string]int{}
			if !isnew && m != nil && m.Op == ai.OSlice {
				match["len"] = s.Facts.Holds(ai.Le(true, ai.I64(metaLen), m.A[2]))
				rv := s.ReadInt(m.A[0], m.A[1], 8, "LE")
				match["new"] = s.Facts.Holds(ai.Le(false, rv, ai.Int(64, ver)))
				match["old"] = s.Facts.Holds(ai.Le(false, ai.Int(64, ver), rv))
				if k.allow {
					match["old"] = 1
				}
				if !k.ro && !k.allow {
					match["block size"] = s.Facts.Holds(ai.Eq(s.ReadInt(m.A[0], ai.AddK(m.A[1], 8), 4, "LE"), want["BlockSize"]))
					match["id"] = s.Facts.Holds(ai.Eq(c.read16(s, m, 12), want["FSID"]))
				}
			}
			if holds(s, ai.Eq(out.Ret.A[1], ai.Nil)) {
				good++
				c.Ob(opened, "accept", where, pos, "succeeds without opening the database")
				if isnew {
					c.Ob(!k.ro && len(puts) > 0 && commit, "accept", where+" new", pos, "accepts a database without header record without recording one")
					for _, e := range puts {
						c.metaRecord(x, s, e, want, where)
					}
				} else {
					for _, n := range sortedKeys(match) {
						c.Ob(match[n] > 0, "accept", where+" "+n, pos, "succeeds although the recorded %s is not known to match", n)
					}
				}
				i, t := fieldNamed(ixt, "Generation")
				if i >= 0 {
					g := ai.Int(64, ^uint64(0))
					if want["Generation"] != nil {
						g = want["Generation"]
					}
					c.Ob(same(s, s.Load(ai.FieldAddr(out.Ret.A[0], i), t), g), "handle", where, pos, "generation of the index is %v", s.Load(ai.FieldAddr(out.Ret.A[0], i), t))
				}
				continue
			}
			fails++
			c.Ob(notHolds(s, ai.Eq(out.Ret.A[1], ai.Nil)), "accept", where+" error", pos, "undecided error result %v", out.Ret.A[1])
			// why was it refused?
			if opFailed(s, out.Ret.A[1]) {
				continue
			}
			just := isnew && k.ro
			for _, v := range match {
				just = just || v < 0
			}
			c.Ob(just, "refuse", where, pos, "a database is refused with %v although nothing is known to differ", out.Ret.A[1])
		}
		if good == 0 || fails == 0 {
			c.Fail(where, "%d successful and %d failing paths", good, fails)
		}
		c.Counts["paths"] += len(outs)
	}
}

// opFailed reports whether an error is that of a failed operation of the path.
func opFailed(s *ai.State, err *ai.Term) bool {
	for _, e := range events(s) {
		if e.Res == nil || e.Kind == "txend" && e.Name == "rollback" || e.Kind == "join" {
			continue
		}
		r := e.Res
		if r.Op == ai.OTuple && len(r.A) > 0 {
			r = r.A[len(r.A)-1]
		}
		if r != ai.Nil && termContains(err, r) && ai.NonNil(r) {
			return true
		}
	}
	return false
}

func termContains(t, u *ai.Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.A {
		if termContains(a, u) {
			return true
		}
	}
	return false
}

func (c *Check) read16(s *ai.State, m *ai.Term, off int64) *ai.Term {
	var b []*ai.Term
	for i := int64(0); i < 16; i++ {
		b = append(b, s.ReadElem(m.A[0], ai.AddK(m.A[1], off+i), types.Typ[types.Uint8]))
	}
	return ai.Struct(b...)
}

// metaKey reports whether a key is the reserved one of the header record, which
// sorts after all others.
func metaKey(s *ai.State, k *ai.Term) bool {
	last := ai.Int(64, ^uint64(255))
	return isIndexKey(s, k, []*ai.Term{ai.Int(64, ^uint64(0)), ai.Int(8, 255), last, ai.Int(64, ^uint64(0)), ai.Int(64, ^uint64(0))}) == ""
}

func (c *Check) metaRecord(x *ai.Exec, s *ai.State, e *ai.Event, want map[string]*ai.Term, where string) {
	v := e.Args[2]
	pos := c.pos(e.Instr.Pos())
	if !c.Ob(v.Op == ai.OSlice && holds(s, ai.Eq(v.A[2], ai.I64(metaLen))), "record", where+" length", pos, "header record is %v", v) {
		return
	}
	for _, l := range metaLayout {
		w := want[l.name]
		if w == nil {
			c.Fail(where, "option %s not found", l.name)
			continue
		}
		var got *ai.Term
		if l.n == 16 {
			got = c.read16(s, v, l.off)
		} else {
			got = s.ReadInt(v.A[0], ai.AddK(v.A[1], l.off), l.n, "LE")
		}
		c.Ob(same(s, got, w), "record", where+" "+l.name, pos, "%s is recorded as %v", l.name, got)
		// and read back
		f := c.P.fn(indexPkg + ":indexMetadata." + l.name)
		if f == nil {
			c.Fail(l.name, "no accessor for %s of the header record", l.name)
			continue
		}
		c.saw(f)
		for _, o := range x.Run(f, []*ai.Term{v}, s.Clone()) {
			c.Ob(o.Kind == "return" && same(o.St, o.Ret, w), "record", fnShort(f), c.pos(f.Pos()), "reads back %v", o.Ret)
		}
	}
}
