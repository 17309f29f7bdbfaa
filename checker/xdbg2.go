package main

import (
	"fmt"
	"os"
	"strings"

	"verif/checker/ai"
)

func init() {
	checks["XVIEW"] = func(c *Check) {
		var vw *View
		if os.Getenv("FN") == "mount" {
			vw = c.mountView(nil)
		} else {
			vw = c.viewCommand(os.Getenv("FN"), nil)
		}
		if vw == nil {
			return
		}
		for _, v := range vw.parts {
			fmt.Println("PART", fnShort(v.fn), v.st.Facts)
			fmt.Println("outs", len(v.outs), "steps", v.x.Steps, "loops", len(v.loops))
			for _, o := range v.obs {
				if !o.OK {
					fmt.Println(" OB", o.Kind, fnShort(o.Fn), c.pos(o.Instr.Pos()), o.Goal)
				}
			}
			if os.Getenv("V") == "" {
				continue
			}
			pr := func(st *ai.State, from *ai.Event) {
				for _, e := range since(st, from) {
					s := fmt.Sprint(e.Args)
					if len(s) > 200 {
						s = s[:200]
					}
					r := fmt.Sprint(e.Res)
					if len(r) > 60 {
						r = r[:60]
					}
					fmt.Println("      ", e.Kind, e.Name, s, "->", r)
				}
			}
			for i, l := range v.loops {
				fmt.Println("LOOP", i, fnShort(l.Fn), c.loopPos(l), "syms", l.Syms, "backs", len(l.Backs))
				for s, t := range l.Init {
					fmt.Println("   init", s, t)
				}
				for _, b := range l.Backs {
					fmt.Println("   BACK")
					if strings.Contains(os.Getenv("V"), "e") {
						pr(b.Path.St, l.Ev)
					}
				}
			}
			for i, o := range v.outs {
				fmt.Println("OUT", i, o.Kind, o.Ret)
				if strings.Contains(os.Getenv("V"), "e") {
					pr(o.St, nil)
				}
			}
		}
	}
}
