package main

import (
	"verif/checker/ai"
)

func init() {
	checks["C25"] = func(c *Check) {
		c.Rules = map[string]string{
			"success":  "nil is returned only when as many bytes were delivered as the block holds",
			"complete": "a completely delivered block is reported as success, whatever indication came with the last byte",
			"failure":  "an incomplete read returns an error, even if the source gave none",
			"request":  "exactly the given block is read, at the given offset",
		}
		f := c.Need("pkg/ioutil:ReadBlockAt")
		if f == nil {
			return
		}
		x, st := c.W.Exec()
		// a reader that may deliver any number of bytes with or without an error
		rd := func(cl *ai.Call) []ai.Outcome {
			var outs []ai.Outcome
			for _, fails := range []bool{false, true} {
				s := cl.St.Clone()
				n := cl.X.Fresh("n", cl.Sig.Results().At(0).Type())
				cl.X.Assume(s, ai.Le(true, ai.I64(0), n))
				cl.X.Assume(s, ai.Le(true, n, cl.Args[1].A[2]))
				e := ai.Nil
				if fails {
					e = cl.X.NewErr("ReadAt")
				}
				r := ai.Tuple(n, e)
				cl.Event(s, "call", "ReadAt", cl.Args, r)
				outs = append(outs, ai.Outcome{Kind: "return", St: s, Ret: r})
			}
			return outs
		}
		x.Models["(io.ReaderAt).ReadAt"] = rd
		x.Models["(*os.File).ReadAt"] = rd
		args := x.Params(f)
		x.Assume(st, ai.Not(ai.Eq(args[0], ai.Nil)))
		w := fnShort(f)
		p := c.pos(f.Pos())
		outs := x.Run(f, args, st)
		full, part := 0, 0
		for _, o := range outs {
			if o.Kind != "return" {
				c.Ob(false, "success", w, p, "ends without returning")
				continue
			}
			var reads []*ai.Event
			for _, e := range events(o.St) {
				if e.Name == "ReadAt" {
					reads = append(reads, e)
				}
			}
			if len(reads) == 0 {
				// nothing was asked of the source: only an empty block is complete
				c.Ob(holds(o.St, ai.Eq(args[1].A[2], ai.I64(0))) || notHolds(o.St, ai.Eq(o.Ret, ai.Nil)), "success", w, p, "succeeds without reading")
				continue
			}
			// the bytes delivered so far
			got := ai.I64(0)
			for i, e := range reads {
				b := e.Args[1]
				ok := b.Op == ai.OSlice && b.A[0] == args[1].A[0] && same(o.St, b.A[1], ai.Add(args[1].A[1], got)) &&
					same(o.St, b.A[2], ai.Sub(args[1].A[2], got)) && same(o.St, e.Args[2], ai.Add(args[2], got))
				c.Ob(ok, "request", w, c.pos(e.Instr.Pos()), "read %d asks for %v at %v", i, b, e.Args[2])
				got = ai.Add(got, e.Res.A[0])
			}
			all := ai.Eq(got, args[1].A[2])
			for _, v := range []bool{true, false} {
				s := o.St.Clone()
				l := all
				if !v {
					l = ai.Not(all)
				}
				if notHolds(s, l) {
					continue
				}
				x.Assume(s, l)
				if infeasible(s) {
					continue
				}
				if v {
					full++
					c.Ob(holds(s, ai.Eq(o.Ret, ai.Nil)), "complete", w, p, "complete block reported as %v", o.Ret)
				} else {
					part++
					c.Ob(notHolds(s, ai.Eq(o.Ret, ai.Nil)), "failure", w, p, "incomplete block reported as %v", o.Ret)
				}
			}
		}
		if full == 0 || part == 0 {
			c.Fail(w, "complete reads on %d paths, incomplete ones on %d", full, part)
		}
		c.Counts["paths"] = len(outs)
		c.saw(f)
		c.Errs(x, w)
	}
}
