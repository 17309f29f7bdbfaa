package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// debugging aids, not part of any check

func dumpState(st *ai.State) {
	st.Facts.Each(func(l *ai.Term) bool { fmt.Println("    fact", l); return true })
}

func dumpLoops(c *Check, loops []*ai.LoopRun) {
	for _, l := range loops {
		fmt.Println("LOOP", fnShort(l.Fn), l.Header, "backs", len(l.Backs), c.loopPos(l))
		for s, i := range l.Init {
			fmt.Println("   init", s, i)
		}
		fmt.Println("   inv", l.Inv)
		for _, b := range l.Backs {
			fmt.Println("   back", b.Next)
			for _, e := range since(b.Path.St, l.Ev) {
				fmt.Println("     ", e.Kind, e.Name, e.Args, e.Res)
			}
			if os.Getenv("F") != "" {
				dumpState(b.Path.St)
			}
		}
	}
}

func dumpOuts(outs []ai.Outcome) {
	for _, o := range outs {
		fmt.Println(" ", o.Kind, o.Ret)
		for _, e := range events(o.St) {
			fmt.Println("     ", e.Kind, e.Name, e.Args, e.Res)
		}
		if os.Getenv("F") != "" {
			dumpState(o.St)
		}
	}
}

func init() {
	checks["XLOOPS"] = func(c *Check) {
		f := c.Need(os.Getenv("FN"))
		if f == nil {
			return
		}
		var loops []*ai.LoopRun
		x, st := c.W.Exec()
		x.OnLoop = func(l *ai.LoopRun) { loops = append(loops, l) }
		outs := x.Run(f, x.Params(f), st)
		dumpLoops(c, loops)
		dumpOuts(outs)
	}
}

var _ *ssa.Function

func init() {
	checks["XID"] = func(c *Check) {
		r := c.identify(4096)
		if r == nil {
			return
		}
		for _, o := range r.obs {
			if !o.OK {
				fmt.Println("OB FAIL", o.Kind, o.Fn, c.pos(o.Instr.Pos()), o.Goal)
			}
		}
		fmt.Println(len(r.outs), r.x.Steps)
		dumpLoops(c, r.loops)
		dumpOuts(r.outs)
	}
}

func dbgf(f string, a ...any) {
	if os.Getenv("D") != "" {
		fmt.Printf(f+"\n", a...)
	}
}
