package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"verif/checker/ai"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: checker check ID... | dump FUNC...")
		os.Exit(2)
	}
	p, err := load()
	switch os.Args[1] {
	case "dump":
		dump(p, err, os.Args[2:])
	case "check":
		code := 0
		if f := os.Getenv("CPUPROF"); f != "" {
			if w, e := os.Create(f); e == nil {
				pprof.StartCPUProfile(w)
			}
		}
		ids := os.Args[2:]
		if ids[0] == "all" {
			ids = sortedKeys(checks)
		}
		for _, id := range ids {
			t := time.Now()
			if c := runCheck(id, p, err); c > code {
				code = c
			}
			if os.Getenv("T") != "" {
				fmt.Println("   ", id, time.Since(t))
			}
		}
		pprof.StopCPUProfile()
		os.Exit(code)
	}
}

func dump(p *Program, err error, names []string) {
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	w := newWorld(p)
	for _, n := range names {
		t1 := time.Now()
		x, st := w.Exec()
		x.OnOb = func(o *ai.Ob) {
			if !o.OK {
				fmt.Println("  OB FAIL", o.Kind, o.Fn, p.Prog.Fset.Position(o.Instr.Pos()), o.Goal)
				if os.Getenv("F") != "" {
					o.St.Facts.Each(func(l *ai.Term) bool { fmt.Println("       fact", l); return true })
				}
			}
		}
		var outs []ai.Outcome
		if c := w.commands()[n]; c != nil {
			outs = w.runCommand(x, st, c)
		} else {
			f := p.fn(n)
			if f == nil {
				fmt.Println("not found", n)
				continue
			}
			outs = x.Run(f, x.Params(f), st)
		}
		fmt.Printf("== %s: %d outcomes, %d steps, %v\n", n, len(outs), x.Steps, time.Since(t1))
		for _, e := range x.Err {
			fmt.Println("  ERR", e)
		}
		for _, o := range outs {
			fmt.Println("  ", o.Kind, o.Ret)
			if os.Getenv("V") != "" {
				o.St.Facts.Each(func(l *ai.Term) bool { fmt.Println("       fact", l); return true })
				for e := o.St.Trace; e != nil; e = e.Prev {
					fmt.Println("       ev", e.Kind, e.Name, e.Args, e.Res)
				}
			}
		}
	}
}
