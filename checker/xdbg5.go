package main

import (
	"fmt"
	"os"
	"strings"
)

// XEV lists the different events of a view.
func init() {
	checks["XEV"] = func(c *Check) {
		var v *View
		if os.Getenv("FN") == "mount" {
			v = c.mountView(nil)
		} else {
			v = c.viewCommand(os.Getenv("FN"), nil)
		}
		for _, p := range v.parts {
			fmt.Println("PART", fnShort(p.fn), p.rec, p.handler, p.args, len(p.all))
			seen := map[string]int{}
			for _, e := range p.all {
				if k := os.Getenv("K"); k != "" && !strings.Contains(" "+k+" ", " "+e.Kind+" ") {
					continue
				}
				s := fmt.Sprintf("%s %s %v -> %v  @%s", e.Kind, e.Name, e.Args, e.Res, c.pos(e.Instr.Pos()))
				if len(s) > 700 {
					s = s[:700]
				}
				if seen[s]++; seen[s] == 1 {
					fmt.Println("  ", s)
				}
			}
		}
	}
}
