package main

import (
	"fmt"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["XPROG"] = func(c *Check) {
		ps := c.programs(func(f *ssa.Function) bool {
			return refers(f, func(n string) bool { return interesting(n) })
		})
		seen := map[string]bool{}
		for _, p := range ps.parts {
			for _, e := range p.all {
				if e.Kind == "call" && (os.Getenv("ALL") != "" || interesting(e.Name)) || e.Kind == "go" {
					s := fmt.Sprintf("%s %s: %s %.150v", p.cmd, fnShort(e.Fn), e.Name, e.Args)
					seen[s] = true
				}
			}
		}
		var r []string
		for s := range seen {
			r = append(r, s)
		}
		sort.Strings(r)
		for _, s := range r {
			fmt.Println(s)
		}
	}
}

func interesting(n string) bool {
	_, ok := pathEffects[n]
	return ok || n == "os.OpenFile" || n == "go.etcd.io/bbolt.Open" || len(n) > 7 && n[:7] == "fmt.Fpr" || len(n) > 7 && n[:7] == "fmt.Pri"
}
