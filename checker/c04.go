package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// what can go wrong at run time, by kind of obligation
var panicKinds = map[string]string{
	"index": "an index may be out of range", "slice": "a slice may be out of range", "nil": "a nil pointer may be used",
	"div": "a division by zero is possible", "make": "a negative or excessive size may be allocated", "assert": "a type assertion may fail",
	"rand": "a random number is drawn from an empty range", "close": "a channel may be closed twice",
}

// safe records the obligations of an analysed run: each must be discharged.
func (c *Check) safe(obs []*ai.Ob, name string) {
	for _, o := range obs {
		w := fnShort(o.Fn) + " " + o.Kind
		p := ""
		if o.Instr != nil {
			p = c.pos(o.Instr.Pos())
			w += " " + p
		}
		k := panicKinds[o.Kind]
		if k == "" {
			k = "the run may fail (" + o.Kind + ")"
		}
		c.Ob(o.OK, "no panic", w, p, "%s in %s: not known that %v", k, name, o.Goal)
	}
}

// noPanics checks that no outcome of a run is an explicit panic.
func (c *Check) noPanics(outs []ai.Outcome, name string) {
	for _, o := range outs {
		c.Ob(o.Kind != "panic" || infeasible(o.St), "no panic", name+" outcome", "", "a path ends in a panic")
	}
}

func checkC04(c *Check) {
	c.Rules = map[string]string{
		"no panic":  "no index, slice, division, allocation size, nil dereference or type assertion can fail at run time",
		"blocksize": "a block size that the analysis does not cover is refused before the image is read",
		"contract":  "what one part of identify demands of its arguments holds where it is called",
	}
	c.blockSizeRule2("blocksize")
	for _, bs := range blockSizes {
		r := c.recon(bs)
		if r == nil {
			return
		}
		c.safe(r.obs, r.name)
		c.noPanics(r.outs, r.name)
		c.sizeChecked(r)
		r = c.identify(bs)
		if r == nil {
			return
		}
		c.safe(r.obs, r.name)
		c.noPanics(r.outs, r.name)
		c.sizeChecked(r)
		c.identifyParts(bs, r)
	}
	// storing an item
	if f := c.Need("pkg/btrfs/index:Index.InsertItem"); f != nil {
		_ = f
	}
}

// sizeChecked checks that blocks are read only after the block size was found
// usable.
func (c *Check) sizeChecked(r *Recon) {
	for _, l := range r.blockLoops() {
		c.Ob(deviceSize(l.Entry) != nil, "blocksize", r.name, c.loopPos(l), "the image is read before block and device size were checked")
	}
}

// identifyParts analyses the parts of identify under what holds at their calls.
func (c *Check) identifyParts(bs int64, r *Recon) {
	K := ai.I64(bs)
	name := fmt.Sprintf("with %d byte blocks", bs)
	min := superOffsets[1] + 100*bs
	// what holds at the calls
	var check func(st *ai.State, e *ai.Event)
	seen := map[*ai.Event]bool{}
	check = func(st *ai.State, e *ai.Event) {
		if seen[e] || e.Instr == nil {
			return
		}
		seen[e] = true
		s := st
		if e.St != nil {
			s = e.St
		}
		p := c.pos(e.Instr.Pos())
		switch {
		case evIs(e, sampleFn):
			c.Ob(same(s, e.Args[1], K) && holds(s, ai.Le(false, ai.I64(min), e.Args[0])), "contract", "call of "+sampleFn, p, "device size %v and block size %v are not known to be usable", e.Args[0], e.Args[1])
		case evIs(e, "FSIDCollecter).CollectBlock"):
			c.Ob(e.Args[1].Op == ai.OSlice && same(s, e.Args[1].A[2], K) && !same(s, e.Args[0], ai.Nil), "contract", "call of "+collectFn, p, "the block handed over is not a whole block")
		case evIs(e, "FSIDCollecter).Entries"):
			c.Ob(!same(s, e.Args[0], ai.Nil), "contract", "call of "+entriesFn, p, "no collector")
		}
	}
	for _, o := range r.outs {
		for _, e := range events(o.St) {
			check(o.St, e)
		}
	}
	for _, l := range r.loops {
		for _, b := range l.Backs {
			for _, e := range since(b.Path.St, l.Ev) {
				check(b.Path.St, e)
			}
		}
	}
	part := func(n string, setup func(x *ai.Exec, st *ai.State, a []*ai.Term)) {
		f := c.Need(identifyPkg + ":" + n)
		if f == nil {
			return
		}
		var obs []*ai.Ob
		_, _, outs := c.run(f, setup, func(o *ai.Ob) { obs = append(obs, o) })
		c.safe(obs, fnShort(f)+" "+name)
		c.noPanics(outs, fnShort(f))
	}
	part("MakeSampleOffsets", func(x *ai.Exec, st *ai.State, a []*ai.Term) {
		a[1] = K
		x.Assume(st, ai.Le(true, ai.I64(min), a[0]))
	})
	part("FSIDCollecter.CollectBlock", func(x *ai.Exec, st *ai.State, a []*ai.Term) {
		c.W.noNilValues(x)
		x.Assume(st, ai.Not(ai.Eq(a[0], ai.Nil)))
		x.Assume(st, ai.Eq(a[1].A[2], K))
	})
	part("FSIDCollecter.Entries", func(x *ai.Exec, st *ai.State, a []*ai.Term) {
		c.W.noNilValues(x)
		x.Assume(st, ai.Not(ai.Eq(a[0], ai.Nil)))
	})
}

var _ = sort.Strings
var _ *ssa.Function
