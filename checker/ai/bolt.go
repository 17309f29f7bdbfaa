package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rebind makes a state usable with another interpreter.
func Rebind(st *State, x *Exec) { st.x = x }

// RunFree interprets a function whose free variables are unknown locations.
func (x *Exec) RunFree(fn *ssa.Function, args []*Term, st *State) []Outcome {
	x.loopsInit()
	var bind []*Term
	for _, fv := range fn.FreeVars {
		bind = append(bind, FreeVar(fv))
	}
	return x.runFn(fn, args, bind, st, nil, "")
}

// FreeVar is the unknown location of a captured variable.
func FreeVar(fv *ssa.FreeVar) *Term {
	t := App("nn:free:"+fv.Name(), 0)
	t.T = fv.Type()
	return t
}

const bb = "go.etcd.io/bbolt"

// KeyLen and MinValue are the sizes of records in the database.
const (
	boltKeyLen   = 33
	boltMinValue = 25
)

// BoltModels returns models of the key-value store.
func BoltModels() map[string]Model {
	m := map[string]Model{}
	P := func(t, n string) string { return "(*" + bb + "." + t + ")." + n }
	m[bb+".Open"] = func(c *Call) []Outcome {
		ro := Bool(false)
		if o := c.Args[2]; o != Nil {
			i := fieldIndex(c.argT(2), "ReadOnly")
			if i >= 0 {
				ro = c.St.Load(fieldAddr(o, i), types.Typ[types.Bool])
			}
		}
		return c.Fork(func(st *State) *Term {
			o := c.NewObj("db")
			st.SetGhost(o, "open", Bool(true))
			st.SetGhost(o, "path", c.Args[0])
			st.SetGhost(o, "readonly", ro)
			return Tuple(o, Nil)
		}, func(st *State, err *Term) *Term { return Tuple(Nil, err) })
	}
	m[P("DB", "Close")] = func(c *Call) []Outcome {
		c.St.SetGhost(c.Args[0], "open", Bool(false))
		if c.ErrUnused() {
			return c.Ret(c.X.Fresh("close", c.Sig.Results().At(0).Type()))
		}
		return c.Fork(func(st *State) *Term { return Nil }, func(st *State, err *Term) *Term { return err })
	}
	m[P("DB", "IsReadOnly")] = func(c *Call) []Outcome {
		if g := c.St.Ghost(c.Args[0], "readonly"); g != nil {
			return c.Quiet(g)
		}
		return c.Quiet(App("db.readonly", 0, c.Args[0]))
	}
	newTx := func(c *Call, st *State, db, wr *Term) *Term {
		o := c.NewObjIn(st, "tx")
		st.SetGhost(o, "writable", wr)
		st.SetGhost(o, "db", db)
		st.SetGhost(o, "active", Bool(true))
		return o
	}
	m[P("DB", "Begin")] = func(c *Call) []Outcome {
		return c.Fork(func(st *State) *Term {
			return Tuple(newTx(c, st, c.Args[0], c.Args[1]), Nil)
		}, func(st *State, err *Term) *Term { return Tuple(Nil, err) })
	}
	end := func(c *Call) []Outcome {
		c.St.SetGhost(c.Args[0], "active", Bool(false))
		if c.ErrUnused() {
			return c.Ret(c.X.Fresh("end", c.Sig.Results().At(0).Type()))
		}
		return c.Fork(func(st *State) *Term { return Nil }, func(st *State, err *Term) *Term { return err })
	}
	m[P("Tx", "Commit")] = end
	m[P("Tx", "Rollback")] = end
	m[P("Tx", "Writable")] = func(c *Call) []Outcome {
		if g := c.St.Ghost(c.Args[0], "writable"); g != nil {
			return c.Quiet(g)
		}
		return c.Quiet(App("tx.writable", 0, c.Args[0]))
	}
	managed := func(wr bool) Model {
		return func(c *Call) []Outcome {
			var outs []Outcome
			st0 := c.St.Clone()
			// the transaction cannot be started
			e := c.X.NewErr(c.Name)
			c.Event(st0, "call", c.Name+":begin", c.Args, e)
			outs = append(outs, Outcome{"return", st0, e})
			tx := newTx(c, c.St, c.Args[0], Bool(wr))
			c.St.SetGhost(tx, "managed", Bool(true))
			c.Event(c.St, "txbegin", c.Name, []*Term{tx, Bool(wr)}, nil)
			for _, o := range c.Invoke(c.Args[1], []*Term{tx}, c.St) {
				if o.Kind != "return" {
					outs = append(outs, o)
					continue
				}
				fork := func(l *Term) *State {
					s := o.St.Clone()
					if s.Facts.Holds(l) < 0 {
						return nil
					}
					c.X.Assume(s, l)
					return s
				}
				if s := fork(Not(Eq(o.Ret, Nil))); s != nil {
					c.Event(s, "txend", "rollback", []*Term{tx}, o.Ret)
					s.SetGhost(tx, "active", Bool(false))
					outs = append(outs, Outcome{"return", s, o.Ret})
				}
				if s := fork(Eq(o.Ret, Nil)); s != nil {
					s.SetGhost(tx, "active", Bool(false))
					if wr {
						s2 := s.Clone()
						e := c.X.NewErr("bbolt.commit")
						c.Event(s2, "txend", "commitfail", []*Term{tx}, e)
						outs = append(outs, Outcome{"return", s2, e})
					}
					c.Event(s, "txend", "commit", []*Term{tx}, Nil)
					outs = append(outs, Outcome{"return", s, Nil})
				}
			}
			return outs
		}
	}
	m[P("DB", "Update")] = managed(true)
	m[P("DB", "View")] = managed(false)
	m[P("Tx", "Bucket")] = func(c *Call) []Outcome {
		tx := c.Args[0]
		db := c.St.Ghost(tx, "db")
		if db == nil {
			db = App("nn:dbof", 0, tx)
			c.St.SetGhost(tx, "db", db)
		}
		name := Str("?")
		if c.Args[1].Op == OSlice {
			name = c.St.StrOf(c.Args[1])
		}
		gn := "bucket:" + name.String()
		mk := func(st *State) *Term {
			b := App("nn:bucket", 0, tx, name)
			b.T = c.Sig.Results().At(0).Type()
			st.SetGhost(b, "tx", tx)
			return b
		}
		switch g := c.St.Ghost(db, gn); {
		case g != nil && g.True():
			return c.Ret(mk(c.St))
		}
		st2 := c.St.Clone()
		b := mk(c.St)
		c.St.SetGhost(db, gn, Bool(true))
		c.Event(c.St, "call", c.Name, c.Args, b)
		c.Event(st2, "call", c.Name, c.Args, Nil)
		return []Outcome{{"return", c.St, b}, {"return", st2, Nil}}
	}
	create := func(c *Call) []Outcome {
		tx := c.Args[0]
		return c.Fork(func(st *State) *Term {
			name := Str("?")
			if c.Args[1].Op == OSlice {
				name = st.StrOf(c.Args[1])
			}
			if db := st.Ghost(tx, "db"); db != nil {
				st.SetGhost(db, "bucket:"+name.String(), Bool(true))
			}
			b := App("nn:bucket", 0, tx, name)
			b.T = c.Sig.Results().At(0).Type()
			st.SetGhost(b, "tx", tx)
			st.SetGhost(b, "fresh", Bool(true))
			return Tuple(b, Nil)
		}, func(st *State, err *Term) *Term { return Tuple(Nil, err) })
	}
	m[P("Tx", "CreateBucket")] = create
	m[P("Tx", "CreateBucketIfNotExists")] = create
	m[P("Bucket", "Get")] = func(c *Call) []Outcome {
		nonnil(c)
		k := c.X.Pack(c.St, c.Args[1], c.argT(1))
		r := App("dbget", 0, c.Args[0], k)
		r.T = c.Sig.Results().At(0).Type()
		v := c.X.SliceOf(r)
		if g := c.St.Ghost(c.Args[0], "fresh"); g != nil && g.True() {
			return c.Ret(NilSlice) // a new bucket is empty
		}
		return c.Ret(v)
	}
	m[P("Bucket", "Put")] = func(c *Call) []Outcome {
		nonnil(c)
		return c.Fork(func(st *State) *Term { return Nil }, func(st *State, err *Term) *Term { return err })
	}
	m[P("Bucket", "Delete")] = m[P("Bucket", "Put")]
	m[P("Bucket", "Cursor")] = func(c *Call) []Outcome {
		nonnil(c)
		o := c.NewObj("cursor")
		c.St.SetGhost(o, "bucket", c.Args[0])
		return c.Ret(o)
	}
	return m
}

func nonnil(c *Call) {
	if r := c.Args[0]; !NonNil(r) {
		c.Need("nil", Not(Eq(r, Nil)))
	}
}

func fieldIndex(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// FieldIndex finds a field of the struct that a type is or points to.
func FieldIndex(t types.Type, name string) int { return fieldIndex(t, name) }

// FieldAddr is the address of a field.
func FieldAddr(p *Term, i int) *Term { return fieldAddr(p, i) }

// Base is the object that an address lies in.
func Base(p *Term) *Term {
	if p.Op != OObj && p.Op != OPtr {
		return nil
	}
	return split(p).base
}
