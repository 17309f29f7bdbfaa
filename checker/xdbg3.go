package main

import (
	"fmt"
	"os"

	"verif/checker/ai"
)

func init() {
	checks["XDB"] = func(c *Check) {
		f := c.Need(os.Getenv("FN"))
		if f == nil {
			return
		}
		r := c.dbRun(f, func(r *dbRun, st *ai.State) {
			for i, a := range r.args {
				if os.Getenv("OWN") != "" && a.W == 64 {
					r.x.Assume(st, ai.Lt(false, a, genMax))
				}
				if a.Op == ai.OSlice {
					r.args[i] = ai.SliceV(a.A[0], a.A[1], ai.I64(33), ai.I64(33), ai.Bool(false))
					if os.Getenv("OWN") != "" {
						r.x.Assume(st, ai.Lt(false, comps(st, r.args[i])[0], genMax))
					}
				}
			}
		})
		if r == nil {
			return
		}
		for _, o := range r.obs {
			if !o.OK {
				fmt.Println(" OB", o.Kind, fnShort(o.Fn), c.pos(o.Instr.Pos()), o.Goal)
			}
		}
		fmt.Println(len(r.outs), "outs", r.x.Steps)
		for i, o := range r.outs {
			fmt.Println("OUT", i, o.Kind, o.Ret)
			if os.Getenv("B") != "" {
				continue
			}
			for _, g := range dbGaps(o.St) {
				fmt.Println("   gap", g.a, g.b)
			}
			if os.Getenv("F") != "" {
				dumpState(o.St)
			}
			_ = ai.Nil
		}
		dumpLoops(c, r.loops)
	}
}
