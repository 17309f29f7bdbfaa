package main

import (
	"fmt"
	"os"

	"verif/checker/ai"
)

func init() {
	checks["X33"] = func(c *Check) {
		var v *View
		switch os.Getenv("FN") {
		case "recover":
			v = c.recoverRun().v
		case "mount":
			v = c.mountView(nil)
		default:
			v = c.viewCommand(os.Getenv("FN"), nil)
		}
		for _, p := range v.parts {
			for _, l := range p.loops {
				fmt.Println("LOOP", p.fn.Name(), loopWhere(l), c.loopPos(l), "exits", len(l.Exits), "outs", len(l.Outs))
				for i, s := range l.Syms {
					fmt.Println("   sym", s, "init", l.Init[l.Syms[i]])
				}
				show := func(st *ai.State) {
					st.Facts.Each(func(f *ai.Term) bool {
						for _, s := range l.Syms {
							if termContains(f, s) {
								fmt.Println("        ", cut(f.String(), 300))
								break
							}
						}
						return true
					})
				}
				for _, b := range l.Backs {
					fmt.Println("   back")
					show(b.Path.St)
					for s, n := range b.Next {
						fmt.Println("      next", s, "=", cut(n.String(), 300))
					}
					for _, e := range since(b.Path.St, l.Ev) {
						fmt.Println("      ev", e.Kind, e.Name)
					}
				}
				for _, e := range l.Exits {
					fmt.Println("   exit")
					show(e)
				}
				for _, o := range l.Outs {
					fmt.Println("   out", o.Kind)
				}
			}
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
