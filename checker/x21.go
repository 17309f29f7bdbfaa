package main

import (
	"fmt"
	"os"
	"strings"

	"verif/checker/ai"
)

func init() {
	checks["X21"] = func(c *Check) {
		if os.Getenv("FN") == "ls" {
			c.onEvent = func(x *ai.Exec, e *ai.Event) {
				if isPrint(e) {
					for _, t := range printed(e, x) {
						fmt.Println("PRINT", c.pos(e.Instr.Pos()), cut(t.String(), 500))
					}
				}
			}
			c.viewCommand("ls", nil)
			return
		}
		v := c.mountView(nil)
		for _, p := range v.parts {
			if o := os.Getenv("FN"); o != "" && !strings.Contains(fnShort(p.fn), o) {
				continue
			}
			for _, o := range p.outs {
				fmt.Println("OUT", fnShort(p.fn), o.Kind, o.Ret)
				for i, a := range p.args {
					fmt.Println("  ARG", i, a, a.T)
				}
				if os.Getenv("V") != "" {
					o.St.Facts.Each(func(f *ai.Term) bool { fmt.Println("     F", cut(f.String(), 300)); return true })
				}
				o.St.Dump(func(s string) { fmt.Println("     ", cut(s, 400)) })
			}
		}
	}
}
