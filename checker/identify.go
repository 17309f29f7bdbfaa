package main

import (
	"fmt"

	"verif/checker/ai"
)

const (
	identifyPkg = "internal/identify"
	sampleFn    = "internal/identify.MakeSampleOffsets"
	collectFn   = "(*internal/identify.FSIDCollecter).CollectBlock"
	entriesFn   = "(*internal/identify.FSIDCollecter).Entries"
)

// identifyAPI keeps the parts of identify that are analysed on their own.
func identifyAPI() map[string]ai.Model {
	keep := func(c *ai.Call) []ai.Outcome { return c.X.Results(c, c.Name) }
	return map[string]ai.Model{sampleFn: keep, collectFn: keep, entriesFn: keep}
}

// identify analyses the identify command for one block size.
func (c *Check) identify(bs int64) *Recon {
	cmd := c.W.commands()["identify"]
	if cmd == nil || cmd.Run == nil {
		c.Fail("identify", "command identify not found")
		return nil
	}
	x, st := c.W.Exec()
	r := &Recon{bs: bs, x: x, name: fmt.Sprintf("identify with %d byte blocks", bs)}
	x.Anchor = anchors(identifyAPI())
	x.OnLoop = func(l *ai.LoopRun) { r.loops = append(r.loops, l) }
	x.OnOb = func(o *ai.Ob) { r.obs = append(r.obs, o) }
	g := c.W.global("cmd/btrfscue/app", "Global")
	if g == nil {
		c.Fail("identify", "app.Global not found")
		return nil
	}
	if i, t := fieldNamed(g.Type().Underlying(), "BlockSize"); i >= 0 {
		st.Store(ai.FieldAddr(ai.GlobalAddr(g), i), ai.I64(bs), t)
	}
	r.outs = c.W.runCommand(x, st, cmd)
	c.saw(cmd.Run)
	c.Errs(x, r.name)
	c.Counts["paths"] += len(r.outs)
	c.Counts["steps"] += x.Steps
	return r
}
