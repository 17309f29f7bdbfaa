package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

const bboltPkg = "go.etcd.io/bbolt"

// fieldOfType finds the only field of a struct type with the given type.
func fieldOfType(t types.Type, typ string) (int, types.Type) {
	if t == nil {
		return -1, nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(s.Field(i).Type(), nil) == typ {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

func fieldNamed(t types.Type, name string) (int, types.Type) {
	i := ai.FieldIndex(t, name)
	if i < 0 {
		return -1, nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return i, t.Underlying().(*types.Struct).Field(i).Type()
}

func (c *Check) namedType(pkg, name string) types.Type {
	s := c.P.SSA[module+"/"+pkg]
	if s == nil || s.Type(name) == nil {
		return nil
	}
	return s.Type(name).Type()
}

func (c *Check) rangeField(name string) (int, types.Type) {
	return fieldNamed(c.namedType(indexPkg, "Range"), name)
}

func (c *Check) keyFieldType() types.Type {
	_, t := c.rangeField("key")
	return t
}

// Ix is an index object in a state.
type Ix struct {
	Ptr, DB, Tx, Bucket *ai.Term
	fdb, ftx, fb        int
	tdb, ttx, tb        types.Type
}

// indexObj describes the fields of an index that hold the database handles.
func (c *Check) indexObj(p *ai.Term) *Ix {
	t := c.namedType(indexPkg, "Index")
	ix := &Ix{Ptr: p}
	ix.fdb, ix.tdb = fieldOfType(t, "*"+bboltPkg+".DB")
	ix.ftx, ix.ttx = fieldOfType(t, "*"+bboltPkg+".Tx")
	ix.fb, ix.tb = fieldOfType(t, "*"+bboltPkg+".Bucket")
	if ix.fdb < 0 || ix.ftx < 0 || ix.fb < 0 {
		return nil
	}
	return ix
}

// state brings an index into one of the states it has between calls: "idle"
// (no transaction), "write" or "read" (open transaction of that kind).
func (ix *Ix) state(x *ai.Exec, st *ai.State, kind string) {
	x.Assume(st, ai.Not(ai.Eq(ix.Ptr, ai.Nil)))
	nn := func(n string, t types.Type) *ai.Term {
		v := ai.App("nn:ix."+n, 0, ix.Ptr)
		v.T = t
		return v
	}
	ix.DB = nn("db", ix.tdb)
	st.Store(ai.FieldAddr(ix.Ptr, ix.fdb), ix.DB, ix.tdb)
	st.SetGhost(ix.DB, "open", ai.Bool(true))
	st.SetGhost(ix.DB, "readonly", ai.Bool(kind == "read"))
	st.SetGhost(ix.DB, "bucket:"+ai.Str("index").String(), ai.Bool(true))
	ix.Tx, ix.Bucket = ai.Nil, ai.Nil
	if kind != "idle" {
		ix.Tx, ix.Bucket = nn("tx", ix.ttx), nn("bucket", ix.tb)
		st.SetGhost(ix.Tx, "writable", ai.Bool(kind == "write"))
		st.SetGhost(ix.Tx, "db", ix.DB)
		st.SetGhost(ix.Tx, "active", ai.Bool(true))
		st.SetGhost(ix.Bucket, "tx", ix.Tx)
	}
	st.Store(ai.FieldAddr(ix.Ptr, ix.ftx), ix.Tx, ix.ttx)
	st.Store(ai.FieldAddr(ix.Ptr, ix.fb), ix.Bucket, ix.tb)
}

func (ix *Ix) tx(st *ai.State) *ai.Term { return st.Load(ai.FieldAddr(ix.Ptr, ix.ftx), ix.ttx) }
func (ix *Ix) bucket(st *ai.State) *ai.Term {
	return st.Load(ai.FieldAddr(ix.Ptr, ix.fb), ix.tb)
}

// indexRun interprets a method of the index in each state the index can be in.
func (c *Check) indexRun(f *ssa.Function, setup func(x *ai.Exec, st *ai.State, a []*ai.Term), after func(x *ai.Exec, args []*ai.Term, outs []ai.Outcome)) {
	for _, kind := range []string{"idle", "write", "read"} {
		x, st := c.W.Exec()
		args := x.Params(f)
		ix := c.indexObj(args[0])
		if ix == nil {
			c.Fail(fnShort(f), "the index has no database, transaction and bucket fields")
			return
		}
		ix.state(x, st, kind)
		if setup != nil {
			setup(x, st, args)
		}
		outs := x.Run(f, args, st)
		c.Counts["paths"] += len(outs)
		c.Counts["steps"] += x.Steps
		c.Errs(x, fnShort(f))
		after(x, args, outs)
	}
	c.saw(f)
}

func evIs(e *ai.Event, suffix ...string) bool {
	for _, s := range suffix {
		if strings.HasSuffix(e.Name, s) {
			return true
		}
	}
	return false
}

// events lists the events of a path in order.
func events(st *ai.State) []*ai.Event {
	var r []*ai.Event
	for e := st.Trace; e != nil; e = e.Prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// argType is the static type of an argument of a call event.
func argType(e *ai.Event, i int) types.Type {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	as := ci.Common().Args
	if ci.Common().IsInvoke() {
		i--
	}
	if i < 0 || i >= len(as) {
		return nil
	}
	return as[i].Type()
}
