package main

import (
	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

const indexPkg = "pkg/btrfs/index"

// index key layout: component, offset, width
var keyLayout = []struct {
	name string
	off  int64
	w    int
}{{"Owner", 0, 8}, {"Type", 8, 1}, {"ObjectID", 9, 8}, {"Offset", 17, 8}, {"Generation", 25, 8}}

const indexKeyLen = 33

func be(st *ai.State, s *ai.Term, off int64, n int) *ai.Term {
	return st.ReadInt(s.A[0], ai.AddK(s.A[1], off), n, "BE")
}

// keyParts reads the components of an encoded index key.
func keyParts(st *ai.State, s *ai.Term) []*ai.Term {
	var r []*ai.Term
	for _, l := range keyLayout {
		r = append(r, be(st, s, l.off, l.w))
	}
	return r
}

// isIndexKey reports which component of an encoded key is not as wanted.
func isIndexKey(st *ai.State, s *ai.Term, want []*ai.Term) string {
	if s.Op != ai.OSlice {
		return "not a byte slice"
	}
	if !holds(st, ai.Eq(s.A[2], ai.I64(indexKeyLen))) {
		return "length"
	}
	got := keyParts(st, s)
	for i, l := range keyLayout {
		if want[i] != nil && !same(st, got[i], want[i]) {
			return l.name
		}
	}
	return ""
}

func init() {
	checks["C08"] = checkC08
}

func checkC08(c *Check) {
	c.Rules = map[string]string{
		"encode":    "the encoded key is 33 bytes: owner, type, object id, offset, generation, most significant byte first",
		"decode":    "each component read back from a key is the big-endian field at its position",
		"convert":   "converting an old key preserves all five components",
		"roundtrip": "a component decoded from an encoded key equals what was encoded",
	}
	mk := c.P.fn(indexPkg + ":newIndexKey")
	var enc *ai.Term
	if mk != nil {
		x, args, outs := c.run(mk, nil, nil)
		k := args[1]
		for _, o := range outs {
			w := fnShort(mk)
			if o.Kind != "return" {
				c.Ob(false, "encode", w, c.pos(mk.Pos()), "does not return")
				continue
			}
			bad := isIndexKey(o.St, o.Ret, []*ai.Term{args[0], k.A[1], k.A[0], k.A[2], args[2]})
			c.Ob(bad == "", "encode", w, c.pos(mk.Pos()), "%s is not encoded in its place: %v", bad, keyStr(o.St, o.Ret))
			enc = o.Ret
			want := []*ai.Term{args[0], k.A[1], k.A[0], k.A[2], args[2]}
			for i, l := range keyLayout {
				m := c.P.methodsOf(indexPkg, "keyV2")[l.name]
				if m == nil || enc.Op != ai.OSlice {
					continue
				}
				for _, p := range x.Run(m, []*ai.Term{enc}, o.St.Clone()) {
					c.Ob(p.Kind == "return" && same(p.St, p.Ret, want[i]), "roundtrip", fnShort(m), c.pos(m.Pos()), "decodes %v", p.Ret)
				}
			}
		}
	}
	for _, t := range []string{"keyV1", "keyV2"} {
		ms := c.P.methodsOf(indexPkg, t)
		for _, l := range keyLayout {
			if m := ms[l.name]; m != nil {
				c.decode(m, func(st *ai.State, s *ai.Term) *ai.Term { return be(st, s, l.off, l.w) })
			}
		}
		if m := ms["Key"]; m != nil {
			c.decode(m, func(st *ai.State, s *ai.Term) *ai.Term {
				return ai.Struct(be(st, s, 9, 8), be(st, s, 8, 1), be(st, s, 17, 8))
			})
		}
	}
	if f := c.P.fn(indexPkg + ":NewIndexKeyFromV1"); f != nil {
		_, args, outs := c.run(f, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
			x.Assume(st, ai.Le(true, ai.I64(indexKeyLen), a[0].A[2]))
		}, nil)
		for _, o := range outs {
			bad := "no return"
			if o.Kind == "return" {
				bad = isIndexKey(o.St, o.Ret, keyParts(o.St, args[0]))
			}
			c.Ob(bad == "", "convert", fnShort(f), c.pos(f.Pos()), "%s is not preserved", bad)
		}
	}
	c.insertedKey()
	c.rangeAccessors()
}

func keyStr(st *ai.State, s *ai.Term) []*ai.Term {
	if s.Op != ai.OSlice {
		return nil
	}
	return keyParts(st, s)
}

func (c *Check) decode(m *ssa.Function, want func(st *ai.State, s *ai.Term) *ai.Term) {
	_, args, outs := c.run(m, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
		x.Assume(st, ai.Le(true, ai.I64(indexKeyLen), a[0].A[2]))
	}, nil)
	for _, o := range outs {
		ok := o.Kind == "return" && same(o.St, o.Ret, want(o.St, args[0]))
		c.Ob(ok, "decode", fnShort(m), c.pos(m.Pos()), "returns %v", o.Ret)
	}
}

// insertedKey decides the key that InsertItem hands to the store.
func (c *Check) insertedKey() {
	f := c.Need(indexPkg + ":Index.InsertItem")
	if f == nil {
		return
	}
	n := 0
	c.indexRun(f, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
		x.Assume(st, ai.Le(true, ai.I64(101), a[2].A[2]))
	}, func(x *ai.Exec, args []*ai.Term, outs []ai.Outcome) {
		for _, o := range outs {
			for e := o.St.Trace; e != nil; e = e.Prev {
				if !evIs(e, "Bucket).Put") {
					continue
				}
				n++
				k := args[1]
				h := args[2]
				st := o.St
				bad := isIndexKey(st, e.Args[1], []*ai.Term{leK(st, h, 88, 8), k.A[1], k.A[0], k.A[2], leK(st, h, 80, 8)})
				c.Ob(bad == "", "encode", fnShort(f)+" put", c.pos(e.Instr.Pos()), "%s of the stored key is not as given: %v", bad, keyStr(st, e.Args[1]))
			}
		}
	})
	if n == 0 {
		c.Fail(fnShort(f), "no put found")
	}
}

// rangeAccessors decides what a range reports about its current position.
func (c *Check) rangeAccessors() {
	ms := c.P.methodsOf(indexPkg, "Range")
	for _, k := range []string{"Owner", "Key", "Generation"} {
		m := ms[k]
		if m == nil {
			continue
		}
		x, st := c.W.Exec()
		args := x.Params(m)
		key := x.Fresh("key", c.keyFieldType())
		x.Assume(st, ai.Le(true, ai.I64(indexKeyLen), key.A[2]))
		i, t := c.rangeField("key")
		if i < 0 {
			continue
		}
		st.Store(ai.FieldAddr(args[0], i), key, t)
		for _, o := range x.Run(m, args, st) {
			var want *ai.Term
			switch k {
			case "Owner":
				want = be(o.St, key, 0, 8)
			case "Generation":
				want = be(o.St, key, 25, 8)
			case "Key":
				want = ai.Struct(be(o.St, key, 9, 8), be(o.St, key, 8, 1), be(o.St, key, 17, 8))
			}
			c.Ob(o.Kind == "return" && same(o.St, o.Ret, want), "decode", fnShort(m), c.pos(m.Pos()), "returns %v", o.Ret)
		}
		c.saw(m)
		c.Errs(x, fnShort(m))
	}
}
