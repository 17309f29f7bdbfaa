package main

import (
	"fmt"

	"verif/checker/ai"
)

// the block sizes that the format allows here
var blockSizes = []int64{4096, 8192, 16384, 32768, 65536}

// Recon is the analysis of the recon command for one block size.
type Recon struct {
	bs    int64
	x     *ai.Exec
	outs  []ai.Outcome
	loops []*ai.LoopRun
	obs   []*ai.Ob
	name  string
	id    *ai.Term // where the requested file-system id is kept
}

func (c *Check) recon(bs int64) *Recon {
	cmd := c.W.commands()["recon"]
	if cmd == nil || cmd.Run == nil {
		c.Fail("recon", "command recon not found")
		return nil
	}
	x, st := c.W.Exec()
	r := &Recon{bs: bs, x: x, name: fmt.Sprintf("recon with %d byte blocks", bs)}
	x.Anchor = anchors(writeAPI())
	x.OnLoop = func(l *ai.LoopRun) { r.loops = append(r.loops, l) }
	x.OnOb = func(o *ai.Ob) { r.obs = append(r.obs, o) }
	g := c.W.global("cmd/btrfscue/app", "Global")
	if g == nil {
		c.Fail("recon", "app.Global not found")
		return nil
	}
	if i, t := fieldNamed(g.Type().Underlying(), "BlockSize"); i >= 0 {
		st.Store(ai.FieldAddr(ai.GlobalAddr(g), i), ai.I64(bs), t)
	}
	if a, _ := c.W.flagPlace(cmd, "id"); a != nil {
		r.id = a
	} else {
		c.Fail("recon", "the option that holds the file-system id was not found")
		return nil
	}
	r.outs = c.W.runCommand(x, st, cmd)
	c.saw(cmd.Run)
	c.Errs(x, r.name)
	c.Counts["paths"] += len(r.outs)
	c.Counts["steps"] += x.Steps
	return r
}
