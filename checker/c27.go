package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C27"] = checkC27 }

// Where something is printed to.
const (
	toOut    = "standard output"
	toErr    = "standard error"
	toBuffer = "memory"
)

var printers = map[string]int{ // index of the writer, -1: standard output
	"fmt.Print": -1, "fmt.Printf": -1, "fmt.Println": -1,
	"fmt.Fprint": 0, "fmt.Fprintf": 0, "fmt.Fprintln": 0, "io.WriteString": 0, "io.Copy": 0, "io.CopyN": 0, "io.CopyBuffer": 0,
}

// writing tells whether a call writes to its first argument.
func writing(n string) (int, bool) {
	if i, ok := printers[n]; ok {
		return i, true
	}
	for _, s := range []string{").Write", ").WriteString", ").WriteByte", ").WriteRune", ").WriteAt", ").ReadFrom", ").Fd"} {
		if strings.HasSuffix(n, s) {
			return 0, true
		}
	}
	return 0, false
}

// mentionsOutput reports whether a function prints, or refers to standard
// output.
func mentionsOutput(f *ssa.Function) bool {
	if refers(f, func(n string) bool {
		_, p := printers[n]
		return p || n == "syscall.Write" || n == "os.NewFile" || strings.Contains(n, "OutOrStd")
	}) {
		return true
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, o := range ins.Operands(nil) {
				if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Std") {
					return true
				}
			}
		}
	}
	return false
}

// printed lists what a call prints.
func printed(e *ai.Event, x *ai.Exec) []*ai.Term {
	var r []*ai.Term
	first := true
	if i, ok := printers[e.Name]; ok && i < 0 {
		first = false
	}
	for i, a := range e.Args {
		if i == 0 && first {
			continue
		}
		if a.Op == ai.OSlice && i == len(e.Args)-1 {
			r = append(r, x.Unlist(e.St, a, anyType)...)
		} else {
			r = append(r, a)
		}
	}
	return r
}

// Output decides where prints go.
type Output struct {
	ps     *Programs
	labels map[*View]*Labels
	writer map[*ai.Event]map[*ai.Term]*ai.Term // what an object writes to
}

// note remembers what the arguments of a call write to.
func (o *Output) note(e *ai.Event) {
	if e.Kind != "call" && e.Kind != "recurse" && e.Kind != "go" {
		return
	}
	for _, w := range e.Args {
		for d := 0; d < 8 && w != nil; d++ {
			for w.Op == ai.OIface {
				w = w.A[0]
			}
			if w.Op != ai.OObj && w.Op != ai.OPtr {
				break
			}
			g := e.St.Ghost(w, "writer")
			if g == nil {
				if h := e.St.Ghost(w, "how"); h != nil {
					g = ai.Str("a file")
				}
			}
			if g == nil {
				break
			}
			if o.writer[e] == nil {
				o.writer[e] = map[*ai.Term]*ai.Term{}
			}
			o.writer[e][w] = g
			w = g
		}
	}
}

func (o *Output) sink(p *Prog, e *ai.Event, w *ai.Term) string {
	for d := 0; d < 8; d++ {
		if w.Op == ai.OIface {
			if pt, ok := w.X.(*types.Pointer); ok {
				switch types.TypeString(pt.Elem(), nil) {
				case "bytes.Buffer", "strings.Builder":
					return toBuffer
				}
			}
			w = w.A[0]
			continue
		}
		if w.Op == ai.OApp {
			switch w.S {
			case "nn:os.Stdout":
				return toOut
			case "nn:os.Stderr":
				return toErr
			}
		}
		if w.Op == ai.OStr {
			return w.S
		}
		g := o.writer[e][w]
		if g == nil {
			break
		}
		w = g
	}
	if l := o.labels[p.v]; l != nil && p.rec {
		for _, s := range []string{toOut, toErr} {
			if l.has(p.Part, s, w) {
				return s
			}
		}
	}
	return "an unknown place"
}

// output tells where a call prints to, "" if it does not print.
func (o *Output) output(p *Prog, e *ai.Event) string {
	if e.Kind != "call" && e.Kind != "go" {
		return ""
	}
	if i, ok := writing(e.Name); ok {
		if i < 0 {
			return toOut
		}
		if _, ok := printers[e.Name]; !ok {
			// a method: only of standard output, or of what writes to it
			if len(e.Args) == 0 {
				return ""
			}
			if s := o.sink(p, e, e.Args[0]); s == toOut || s == toErr {
				return s
			}
			return ""
		}
		return o.sink(p, e, e.Args[0])
	}
	switch e.Name {
	case "text/tabwriter.NewWriter", "(*text/tabwriter.Writer).Init", "(*text/tabwriter.Writer).Flush", "(*os.File).Close", "(*os.File).Sync", "(*os.File).Stat", "(*os.File).Name":
		return ""
	case "syscall.Write", "os.NewFile":
		if len(e.Args) > 0 && !isInt(e.Args[0], 2) {
			return toOut
		}
	}
	for _, a := range e.Args {
		out := false
		a.Walk(func(t *ai.Term) bool {
			out = out || t.Op == ai.OApp && t.S == "nn:os.Stdout"
			return !out
		})
		if out || strings.Contains(e.Name, ").OutOrStd") {
			return toOut
		}
	}
	return ""
}

// blank reports whether a print shows nothing whatever happens.
func blank(e *ai.Event, vals []*ai.Term) bool {
	return e.Name != "fmt.Println" && e.Name != "fmt.Fprintln" && len(vals) == 1 && vals[0].Op == ai.OStr && vals[0].S == ""
}

// isResult reports whether a value is something that was stored on the device,
// or computed from its blocks.
func isResult(t *ai.Term) bool {
	if t.Op != ai.OApp {
		return false
	}
	for _, p := range []string{"rng", "item", "pathitem", "pkg/btrfs.", "elem"} {
		if strings.HasPrefix(t.S, p) {
			return true
		}
	}
	return false
}

// notResult finds in a printed value something that is no result: errors, what
// was given on the command line, and the size of the device.
func (o *Output) notResult(p *Prog, e *ai.Event, v *ai.Term) string {
	why := ""
	v.Walk(func(t *ai.Term) bool {
		if why != "" {
			return false
		}
		switch {
		case t.Op == ai.OIface && types.Implements(t.X.(types.Type), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)):
			why = "an error"
		case t.Op == ai.OApp && strings.HasPrefix(t.S, "err:"):
			why = "an error"
		case t.Op == ai.OApp && t.S == "seek":
			why = "the size of the device"
		case t.Op == ai.OApp && strings.HasPrefix(t.S, "nn:free:"):
			why = "an option"
		case o.isConfig(t):
			why = "an option"
		case o.isArgument(p, t):
			if !pathFound(p, e, v) {
				why = "an argument of the command"
			}
		case t.Op == ai.OApp && strings.HasPrefix(t.S, "elem"):
			s := t.String()
			if strings.Contains(s, "MakeSampleOffsets") {
				why = "a position on the device"
			}
			return o.mentionsArgument(p, t)
		case isResult(t):
			return false
		}
		return why == ""
	})
	return why
}

func (o *Output) mentionsArgument(p *Prog, t *ai.Term) bool {
	r := false
	t.Walk(func(u *ai.Term) bool {
		r = r || o.isArgument(p, u)
		return !r
	})
	return r
}

func (o *Output) isConfig(t *ai.Term) bool {
	g := o.ps.c.W.global("cmd/btrfscue/app", "Global")
	return g != nil && (ai.Base(t) == ai.GlobalAddr(g))
}

func (o *Output) isArgument(p *Prog, t *ai.Term) bool {
	if p.root && t.Op == ai.OSym {
		for _, a := range p.args {
			if a == t {
				return true
			}
			if a.Op == ai.OSlice && termContains(a, t) {
				return true
			}
		}
	}
	return false
}

// pathFound reports whether at an event a path is known to name something.
func pathFound(p *Prog, e *ai.Event, v *ai.Term) bool {
	for v.Op == ai.OIface {
		v = v.A[0]
	}
	r := false
	e.Facts.Each(func(t *ai.Term) bool {
		t.Walk(func(u *ai.Term) bool {
			if u.Op == ai.OApp && u.S == "pathitem" && termContains(u, v) {
				r = r || nfact(e, p.x.SliceOf(u).A[4])
			}
			return !r
		})
		return !r
	})
	return r
}

func checkC27(c *Check) {
	c.Rules = map[string]string{
		"library": "library packages and the mounted view print nothing to standard output",
		"verbose": "recon, recover, mount and what runs around commands print to standard output only if --verbose is known to be given",
		"result":  "what is printed to standard output is neither an error nor, unless something was found by that name, something given on the command line, nor where or how large the device is",
		"exit":    "the last print before the program ends as failed goes to standard error",
		"stderr":  "standard output and standard error are never exchanged",
		"flag":    "verbose output is off unless --verbose is given",
	}
	c.Assume = append(c.Assume, "the progress bar (pb v3) and the packages log, cobra and go-fuse print to standard error unless they are given another writer",
		"what a constant text says is not judged")
	vals := map[*ai.Event][]*ai.Term{}
	o := &Output{nil, map[*View]*Labels{}, map[*ai.Event]map[*ai.Term]*ai.Term{}}
	c.onEvent = func(x *ai.Exec, e *ai.Event) {
		o.note(e)
		if _, ok := printers[e.Name]; ok && e.Kind == "call" {
			vals[e] = printed(e, x)
		}
	}
	ps := c.programs(mentionsOutput)
	c.onEvent = nil
	o.ps = ps
	for _, p := range ps.parts {
		if p.v != nil && o.labels[p.v] == nil {
			l := p.v.labels()
			o.labels[p.v] = l
			for _, s := range []string{toOut, toErr} {
				s := s
				l.infer(s, func(q *Part, e *ai.Event, t *ai.Term) bool {
					return o.sink(&Prog{Part: q}, e, t) == s
				})
			}
		}
	}
	verbose := ps.verbose()
	n := 0
	for _, p := range ps.parts {
		for _, e := range p.all {
			out := o.output(p, e)
			if out == "" {
				if e.Kind == "exit" {
					o.exit(p, e)
				}
				continue
			}
			n++
			if out != toOut && out != "an unknown place" || blank(e, vals[e]) {
				continue
			}
			w, pos := eventWhere(c, e)
			lib := p.handler
			for _, f := range append([]*ssa.Function{e.Fn}, e.Stack...) {
				if f != nil && (strings.HasPrefix(pkgOf(f), module+"/pkg/") || strings.HasPrefix(pkgOf(f), module+"/internal/rescuefs")) {
					lib = true
				}
			}
			if lib {
				c.Ob(false, "library", w, pos, "prints to %s", out)
				continue
			}
			on := false
			for _, t := range verbose {
				on = on || fact(e, t)
			}
			switch p.cmd {
			case "ls", "dump-index", "identify", "completion":
			default:
				c.Ob(on, "verbose", w, pos, "%s prints to %s without being asked to explain", p.cmd, out)
			}
			c.Ob(on || !ai.IgnoredPkg(e.Name), "result", w, pos, "progress is shown on %s", out)
			for _, v := range vals[e] {
				why := o.notResult(p, e, v)
				if on && why != "an error" {
					why = ""
				}
				c.Ob(why == "", "result", w, pos, "%s is printed to %s", why, out)
			}
		}
	}
	c.Ob(n > 3, "verbose", "btrfscue", "", "only %d prints were found", n)
	c.Counts["prints"] += n
	// exchanging the streams
	for _, f := range c.W.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != "os" || g.Name() != "Stdout" && g.Name() != "Stderr" {
						continue
					}
					u, isLoad := ins.(*ssa.UnOp)
					c.Ob(isLoad && u.X == g, "stderr", fnShort(f), c.pos(ins.Pos()), "os.%s may be replaced", g.Name())
				}
			}
		}
	}
}

// exit checks what was printed before the program ends as failed.
func (o *Output) exit(p *Prog, e *ai.Event) {
	if len(e.Args) > 0 && isInt(e.Args[0], 0) {
		return
	}
	w, pos := eventWhere(o.ps.c, e)
	ok := true
	earlier(e, func(q *ai.Event) bool {
		out := o.output(p, q)
		if out == "" || out == toBuffer || out == "a file" {
			return true
		}
		ok = out == toErr
		return false
	})
	o.ps.c.Ob(ok, "exit", w, pos, "the program ends with an error that was printed to standard output")
}

// verbose gives the values that are true only if --verbose was given, as they
// are when a part starts, and checks that they stay so.
func (ps *Programs) verbose() []*ai.Term {
	c := ps.c
	g := c.W.global("cmd/btrfscue/app", "Global")
	if g == nil {
		c.Fail("app.Global", "not found")
		return nil
	}
	// where the flag is kept
	var place *ai.Term
	name := ai.Str("verbose")
	for _, f := range c.W.allFns {
		if !mentionsText(f, "verbose") || f.Parent() != nil {
			continue
		}
		x, st := c.W.Exec()
		x.OnEvent = func(e *ai.Event) {
			for i, a := range e.Args {
				if a != name || e.Kind != "call" || e.Instr == nil {
					continue
				}
				at := e.Res
				if i > 1 {
					at = e.Args[i-1]
				}
				if at == nil || !c.W.isGlobal(ai.Base(at)) {
					continue
				}
				place = at
				off := false
				for _, d := range e.Args[i+1:] {
					off = off || d.False()
				}
				c.Ob(off, "flag", fnShort(f), c.pos(e.Instr.Pos()), "--verbose is on by default")
			}
		}
		x.RunFree(f, x.Params(f), st)
	}
	if !c.Ob(place != nil, "flag", "--verbose", "", "the option is not found") {
		return nil
	}
	_, st := c.W.Exec()
	bt := types.Typ[types.Bool]
	flag := st.Load(place, bt)
	r := []*ai.Term{flag}
	// flags that are copies of it
	type cp struct {
		g *ssa.Global
		t *ai.Term
	}
	var cps []cp
	for _, q := range c.W.P.topo() {
		sp := c.W.P.SSA[q]
		if sp == nil {
			continue
		}
		for _, n := range sortedKeys(sp.Members) {
			if h, ok := sp.Members[n].(*ssa.Global); ok && types.Identical(h.Type().(*types.Pointer).Elem(), bt) && !c.W.consts[h] {
				cps = append(cps, cp{h, st.Load(ai.GlobalAddr(h), bt)})
			}
		}
	}
	for _, k := range cps {
		ok := true
		where := ""
		// what it is at first
		for _, b := range k.g.Pkg.Func("init").Blocks {
			for _, ins := range b.Instrs {
				if s, is := ins.(*ssa.Store); is && s.Addr == k.g {
					v, is := s.Val.(*ssa.Const)
					ok = ok && is && v.Value != nil && !constant.BoolVal(v.Value)
				}
			}
		}
		for _, p := range ps.parts {
			for _, o := range p.outs {
				if o.St == nil {
					continue
				}
				v := o.St.Load(ai.GlobalAddr(k.g), bt)
				if v != k.t && v != flag && !v.False() && !fact2(o.St, flag) {
					ok = false
				}
				if !ok && where == "" {
					where = fnShort(p.fn)
				}
			}
		}
		if ok {
			r = append(r, k.t)
		} else {
			c.Counts["other switches"]++
		}
	}
	for _, p := range ps.parts {
		for _, o := range p.outs {
			if o.St != nil && p.cmd != "init" {
				v := o.St.Load(place, bt)
				c.Ob(v == flag || v.False(), "flag", fnShort(p.fn), "", "--verbose is changed")
			}
		}
	}
	return r
}

func fact2(st *ai.State, l *ai.Term) bool { return st.Facts.Holds(l) > 0 }

func mentionsText(f *ssa.Function, text string) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, o := range ins.Operands(nil) {
				if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == text {
					return true
				}
			}
		}
	}
	return false
}
