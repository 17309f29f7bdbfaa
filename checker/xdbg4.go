package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() {
	checks["XREAD"] = func(c *Check) {
		f := c.Need(os.Getenv("FN"))
		if f == nil {
			return
		}
		var loops []*ai.LoopRun
		x, st := c.W.Exec()
		api := c.readAPI()
		delete(api, fnShort(f))
		x.OpaqueTypes[module+"/"+indexPkg+".Range"] = true
		x.Anchor = both(anchors(api), c.accessors())
		x.OnAssume = rangeFacts(x)
		x.OnLoop = func(l *ai.LoopRun) { loops = append(loops, l) }
		args := x.Params(f)
		if c.isIndexPtr(f.Params[0].Type()) {
			x.Assume(st, ai.Not(ai.Eq(args[0], ai.Nil)))
		}
		outs := x.Run(f, args, st)
		dumpLoops(c, loops)
		dumpOuts(outs)
		fmt.Println(len(outs), x.Err)
	}
}

var _ *ssa.Function
