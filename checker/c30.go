package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// feat is one sort criterion: literals that say that element a comes before
// element b, and the ways in which a and b can be alike.
type feat func(x *ai.Exec, a, b *ai.Term) (lt []*ai.Term, eq [][]*ai.Term)

// ordered is the criterion of a value compared by an order atom.
func ordered(atom func(a, b *ai.Term) *ai.Term, val func(x *ai.Exec, a *ai.Term) *ai.Term) feat {
	return func(x *ai.Exec, a, b *ai.Term) ([]*ai.Term, [][]*ai.Term) {
		a, b = val(x, a), val(x, b)
		return []*ai.Term{atom(a, b), ai.Not(ai.Eq(a, b)), ai.Not(atom(b, a))},
			[][]*ai.Term{{ai.Eq(a, b), ai.Not(atom(a, b)), ai.Not(atom(b, a))}}
	}
}

func atom(n string) func(a, b *ai.Term) *ai.Term {
	return func(a, b *ai.Term) *ai.Term { return ai.App(n, 0, a, b) }
}

func init() {
	checks["C30"] = func(c *Check) {
		c.Rules = map[string]string{
			"key order": "comparing two keys gives -1, 0 or +1 exactly as (type, object id, offset) compare",
			"order":     "the less function is the lexicographic order by its documented criteria",
			"length":    "the length used for sorting is that of the list",
			"swap":      "swapping exchanges exactly the two elements",
		}
		c.Assume = append(c.Assume, "entropies are never NaN (ShannonEntropy sums finite values)")
		c30Key(c)
		dt := c.namedType(btrfsPkg, "DirItem")
		get := func(m string, t types.Type) func(x *ai.Exec, a *ai.Term) *ai.Term {
			return func(x *ai.Exec, a *ai.Term) *ai.Term { return x.Val("(pkg/btrfs.DirItem)."+m, t, a) }
		}
		typ, name := get("Type", types.Typ[types.Uint8]), get("Name", types.Typ[types.String])
		isdir := func(x *ai.Exec, a *ai.Term) *ai.Term { return ai.Eq(typ(x, a), ai.Int(8, 2)) }
		c30Less(c, "cmd:dirItemSlice", dt, []feat{
			func(x *ai.Exec, a, b *ai.Term) ([]*ai.Term, [][]*ai.Term) {
				da, db := isdir(x, a), isdir(x, b)
				return []*ai.Term{ai.Not(da), db}, [][]*ai.Term{{da, db}, {ai.Not(da), ai.Not(db)}}
			},
			ordered(atom("strlt"), name),
		})
		c30Less(c, "internal/identify:Uint64Array", types.Typ[types.Uint64], []feat{
			ordered(func(a, b *ai.Term) *ai.Term { return ai.Lt(false, a, b) }, func(x *ai.Exec, a *ai.Term) *ai.Term { return a }),
		})
		ft := c.namedType("internal/identify", "FSEntry")
		if ft == nil {
			return
		}
		fld := func(n string) func(x *ai.Exec, a *ai.Term) *ai.Term {
			i := ai.FieldIndex(ft, n)
			return func(x *ai.Exec, a *ai.Term) *ai.Term {
				if i < 0 || a.Op != ai.OStruct || i >= len(a.A) {
					return ai.Str("?")
				}
				return a.A[i]
			}
		}
		c30Less(c, "internal/identify:fsEntries", ft, []feat{
			ordered(func(a, b *ai.Term) *ai.Term { return ai.Lt(false, a, b) }, fld("Count")),
			ordered(atom("flt"), fld("Entropy")),
			ordered(atom("blt"), fld("FSID")),
		})
	}
}

func c30Key(c *Check) {
	f := c.Need("pkg/btrfs:KeyCompare")
	kt := c.namedType(btrfsPkg, "Key")
	if f == nil || kt == nil {
		return
	}
	x, args, outs := c.run(f, nil, nil)
	var fl []int
	for _, n := range []string{"Type", "ObjectID", "Offset"} {
		fl = append(fl, ai.FieldIndex(kt, n))
	}
	w := fnShort(f)
	cases := 0
	for _, o := range outs {
		if o.Kind != "return" {
			c.Ob(false, "key order", w, c.pos(f.Pos()), "does not return")
			continue
		}
		for d := 0; d <= 3; d++ {
			for _, less := range []bool{true, false} {
				if d == 3 && less {
					continue
				}
				s := o.St.Clone()
				ok := true
				for i := 0; i < d; i++ {
					ok = ok && assume(x, s, ai.Eq(args[0].A[fl[i]], args[1].A[fl[i]]))
				}
				want := int64(0)
				if d < 3 {
					a, b := args[0].A[fl[d]], args[1].A[fl[d]]
					want = -1
					if !less {
						a, b = b, a
						want = 1
					}
					ok = ok && assume(x, s, ai.Lt(false, a, b))
				}
				if !ok {
					continue
				}
				cases++
				c.Ob(holds(s, ai.Eq(o.Ret, ai.I64(want))), "key order", w, c.pos(f.Pos()),
					"returns %v, not %d, for keys that first differ in %s", o.Ret, want, []string{"type", "object id", "offset", "nothing"}[d])
			}
		}
	}
	if cases < 7 {
		c.Fail(w, "only %d of 7 cases are reached", cases)
	}
}

// cmpModels describe three-way comparisons by the order atoms used here.
func cmpModels(x *ai.Exec) {
	three := func(atom string, pack bool) ai.Model {
		return func(cl *ai.Call) []ai.Outcome {
			a, b := cl.Args[0], cl.Args[1]
			if pack {
				// a content that is an array is described by its elements
				un := func(t *ai.Term, i int) *ai.Term {
					t = cl.X.Pack(cl.St, t, cl.ArgT[i])
					for t.Op == ai.OApp && t.S == "bytes" && len(t.A) > 0 {
						t = t.A[0]
					}
					return t
				}
				a, b = un(a, 0), un(b, 1)
			}
			lt, gt, eq := ai.App(atom, 0, a, b), ai.App(atom, 0, b, a), ai.Eq(a, b)
			var outs []ai.Outcome
			for i, r := range []int64{-1, 0, 1} {
				s := cl.St.Clone()
				for j, l := range []*ai.Term{lt, eq, gt} {
					if j != i {
						l = ai.Not(l)
					}
					cl.X.Assume(s, l)
				}
				outs = append(outs, ai.Outcome{Kind: "return", St: s, Ret: ai.I64(r)})
			}
			return outs
		}
	}
	x.Models["bytes.Compare"] = three("blt", true)
	x.Models["strings.Compare"] = three("strlt", false)
}

func c30Less(c *Check, typ string, elem types.Type, fs []feat) {
	if elem == nil {
		return
	}
	i := strings.IndexByte(typ, ':')
	f := c.Need(typ + ".Less")
	if f == nil {
		return
	}
	lt := c.namedType(typ[:i], typ[i+1:])
	w := fnShort(f)
	x, st := c.W.Exec()
	cmpModels(x)
	x.Anchor = pureAnchor(func(g *ssa.Function) bool {
		return strings.HasPrefix(fnShort(g), "(pkg/btrfs.DirItem).") && g.Name() != "IsDir"
	})
	args := x.Params(f)
	l := args[0]
	if l.Op != ai.OSlice {
		c.Fail(w, "%s is not a list", lt)
		return
	}
	for _, k := range args[1:] {
		x.Assume(st, ai.Le(true, ai.I64(0), k))
		x.Assume(st, ai.Lt(true, k, l.A[2]))
	}
	a := st.ReadElem(l.A[0], ai.Add(l.A[1], args[1]), elem)
	b := st.ReadElem(l.A[0], ai.Add(l.A[1], args[2]), elem)
	outs := x.Run(f, args, st)
	c.saw(f)
	c.Errs(x, w)
	cases := 0
	for _, o := range outs {
		if o.Kind != "return" {
			c.Ob(false, "order", w, c.pos(f.Pos()), "does not return")
			continue
		}
		for d := 0; d <= len(fs); d++ {
			for _, less := range []bool{true, false} {
				if d == len(fs) && less {
					continue
				}
				alts := []*ai.State{o.St.Clone()}
				for k, q := range fs {
					if k > d || k == d && d == len(fs) {
						break
					}
					p, r := a, b
					if k == d && !less {
						p, r = b, a
					}
					lt, eq := q(x, p, r)
					if k == d {
						eq = [][]*ai.Term{lt}
					}
					var na []*ai.State
					for _, s := range alts {
						for _, e := range eq {
							s := s.Clone()
							if assume(x, s, e...) {
								na = append(na, s)
							}
						}
					}
					alts = na
				}
				for _, s := range alts {
					cases++
					want := d < len(fs) && less
					r := floatLe(o.Ret)
					ok := holds(s, r)
					if !want {
						ok = notHolds(s, r)
					}
					c.Ob(ok, "order", w, c.pos(f.Pos()), "returns %v where the elements first differ in criterion %d (%v expected)", o.Ret, d+1, want)
				}
			}
		}
	}
	if cases < 2*len(fs)+1 {
		c.Fail(w, "only %d of %d cases are reached", cases, 2*len(fs)+1)
	}
	// length and swap
	if g := c.Need(typ + ".Len"); g != nil {
		_, ga, gouts := c.run(g, nil, nil)
		for _, o := range gouts {
			c.Ob(o.Kind == "return" && same(o.St, o.Ret, ga[0].A[2]), "length", fnShort(g), c.pos(g.Pos()), "length is %v", o.Ret)
		}
	}
	if g := c.Need(typ + ".Swap"); g != nil {
		var a0, b0 *ai.Term
		x, ga, gouts := c.run(g, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
			for _, k := range a[1:] {
				x.Assume(st, ai.Le(true, ai.I64(0), k))
				x.Assume(st, ai.Lt(true, k, a[0].A[2]))
			}
			a0 = st.ReadElem(a[0].A[0], ai.Add(a[0].A[1], a[1]), elem)
			b0 = st.ReadElem(a[0].A[0], ai.Add(a[0].A[1], a[2]), elem)
		}, nil)
		for _, o := range gouts {
			for _, l := range []*ai.Term{ai.Lt(true, ga[1], ga[2]), ai.Lt(true, ga[2], ga[1])} {
				s := o.St.Clone()
				if !assume(x, s, l) {
					continue
				}
				a1 := s.ReadElem(ga[0].A[0], ai.Add(ga[0].A[1], ga[1]), elem)
				b1 := s.ReadElem(ga[0].A[0], ai.Add(ga[0].A[1], ga[2]), elem)
				c.Ob(o.Kind == "return" && sameVal(s, a1, b0) && sameVal(s, b1, a0), "swap", fnShort(g), c.pos(g.Pos()), "elements become %v and %v", a1, b1)
			}
		}
	}
}

// sameVal is same, also for slices.
func sameVal(st *ai.State, a, b *ai.Term) bool {
	if same(st, a, b) {
		return true
	}
	if a.Op == ai.OSlice && b.Op == ai.OSlice {
		return a.A[0] == b.A[0] && same(st, a.A[1], b.A[1]) && same(st, a.A[2], b.A[2])
	}
	return false
}

// floatLe rewrites a <= b as not b < a.
func floatLe(t *ai.Term) *ai.Term {
	switch {
	case t.Op == ai.OApp && t.S == "fle":
		return ai.Not(ai.App("flt", 0, t.A[1], t.A[0]))
	case t.Op == ai.ONot:
		return ai.Not(floatLe(t.A[0]))
	}
	return t
}
