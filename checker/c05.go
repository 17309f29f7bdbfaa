package main

import (
	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C05"] = checkC05 }

// views analyses everything that reads collected metadata: the commands that
// read an index, and the mounted view.
func (c *Check) views() []*View {
	var r []*View
	for _, n := range []string{"ls", "dump-index", "recover"} {
		if v := c.viewCommand(n, nil); v != nil {
			r = append(r, v)
		}
	}
	if v := c.mountView(nil); v != nil {
		r = append(r, v)
	}
	return r
}

// readFunction analyses a function of the index that reads, over the model of
// the functions it uses.
func (c *Check) readFunction(f *ssa.Function, setup ...func(x *ai.Exec)) (x *ai.Exec, args []*ai.Term, outs []ai.Outcome) {
	x, st := c.W.Exec()
	api := c.readAPI()
	delete(api, fnShort(f))
	x.OpaqueTypes[module+"/"+indexPkg+".Range"] = true
	x.Anchor = both(anchors(api), c.accessors())
	x.OnAssume = rangeFacts(x)
	var obs []*ai.Ob
	x.OnOb = func(o *ai.Ob) { obs = append(obs, o) }
	for _, s := range setup {
		s(x)
	}
	args = x.Params(f)
	if c.isIndexPtr(f.Params[0].Type()) {
		x.Assume(st, ai.Not(ai.Eq(args[0], ai.Nil)))
	}
	outs = x.Run(f, args, st)
	c.Errs(x, fnShort(f))
	c.Counts["paths"] += len(outs)
	c.Counts["steps"] += x.Steps
	c.saw(f)
	if len(setup) == 0 {
		c.safe(obs, fnShort(f))
		c.noPanics(outs, fnShort(f))
	}
	return
}

func checkC05(c *Check) {
	c.Rules = map[string]string{
		"no panic": "no index, slice, division, allocation size, nil dereference or type assertion can fail at run time",
		"contract": "what the analysis of the commands takes for granted of ranges and lookups holds: the length of the data they return",
	}
	c.Assume = append(c.Assume, "keys in the database are 33 bytes and values at least 25 bytes long, as recon writes them (C08, C10)",
		"values of the database stay readable while the index is open")
	for _, v := range c.views() {
		for _, p := range v.parts {
			c.safe(p.obs, v.name)
			c.noPanics(p.outs, v.name+" "+fnShort(p.fn))
		}
		c.Counts["functions analysed on their own"] += len(v.parts)
	}
	// the ordered store below
	if f := c.Need(indexPkg + ":Index.FindItem"); f != nil {
		if r := c.dbRun(f, nil); r != nil {
			c.safe(r.obs, fnShort(f))
			c.noPanics(r.outs, fnShort(f))
		}
	}
	for _, full := range []bool{false, true} {
		v := c.rangeView(full, true)
		if v == nil {
			return
		}
		c.safe(v.obs, v.typ.String())
		c.noPanics(v.outs, v.typ.String())
		n := 0
		for _, e := range append(append([]*rangeEnd{}, v.first...), v.steps...) {
			if !e.has {
				continue
			}
			n++
			for _, m := range []string{"Owner", "Key", "Generation", "Item"} {
				var obs []*ai.Ob
				v.x.OnOb, v.x.OnLoop = func(o *ai.Ob) { obs = append(obs, o) }, nil
				f := v.meth[m]
				outs := v.x.Run(f, []*ai.Term{v.recv(f, e.r)}, e.st.Clone())
				c.safe(obs, v.typ.String())
				c.noPanics(outs, v.typ.String())
			}
			if !full {
				c.wellFormed(v, e)
			}
		}
		c.Ob(n > 0, "contract", v.typ.String(), "", "no range has an item")
	}
	// what is built on ranges and lookups
	api := c.readAPI()
	for _, n := range []string{"Physical", "FindDirItemForPath"} {
		f := c.Need(indexPkg + ":Index." + n)
		if f == nil || api[fnShort(f)] == nil {
			c.Fail(n, "the model of %s is not used", n)
			continue
		}
		_, _, outs := c.readFunction(f)
		for _, o := range outs {
			if n != "FindDirItemForPath" || o.Kind != "return" || infeasible(o.St) {
				continue
			}
			ok := o.Ret.Op == ai.OTuple && o.Ret.A[0].Op == ai.OSlice
			if ok && !o.Ret.A[0].A[4].True() {
				ok = holds(o.St, ai.Le(true, ai.I64(30), o.Ret.A[0].A[2]))
			}
			c.Ob(ok, "contract", fnShort(f), c.pos(f.Pos()), "the entry found may be shorter than an entry")
		}
	}
	if f := c.Need(btrfsPkg + ":Item.Data"); f != nil {
		n, ok := c.accessorNeeds(f)
		c.Ob(ok && n == 0, "contract", fnShort(f), c.pos(f.Pos()), "the data of an item that is too short or missing cannot be taken")
	}
}

// wellFormed checks that the data a range returns is as long as its kind of
// item asks for.
func (c *Check) wellFormed(v *rangeView, e *rangeEnd) {
	dataOf := c.Need(btrfsPkg + ":Item.Data")
	typeOf := c.P.methodsOf(btrfsPkg, "FileExtentItem")["Type"]
	if dataOf == nil || typeOf == nil || e.item == nil {
		return
	}
	for _, st := range expand(v.x, e.st) {
		for _, o := range v.quietly(dataOf, []*ai.Term{e.item}, st) {
			for t, n := range wellFormedLen {
				s := o.St.Clone()
				if !assume(v.x, s, ai.Eq(e.key[1], ai.Int(8, t))) {
					continue
				}
				c.Ob(!assume(v.x, s.Clone(), ai.Lt(true, o.Ret.A[2], ai.I64(n))), "contract", e.where, e.pos, "an item of kind %d with less than %d bytes may be yielded", t, n)
				if t == 108 && assume(v.x, s, ai.Lt(true, o.Ret.A[2], ai.I64(53)), ai.Le(true, ai.I64(n), o.Ret.A[2])) {
					for _, q := range v.quietly(typeOf, []*ai.Term{o.Ret}, s) {
						c.Ob(!assume(v.x, q.St, ai.Not(ai.Eq(q.Ret, ai.Int(8, 0)))), "contract", e.where, e.pos, "an extent that is too short may be yielded")
					}
				}
			}
		}
	}
}
