package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

func init() { checks["C18"] = checkC18 }

// maxAlloc is the number of elements that any single allocation may have.
const maxAlloc = 1 << 26

// sized are the functions that allocate what their arguments say.
var sized = map[string][]int{
	"strings.Repeat":           {1},
	"bytes.Repeat":             {1},
	"(*bytes.Buffer).Grow":     {1},
	"(*strings.Builder).Grow":  {1},
	"bufio.NewReaderSize":      {1},
	"bufio.NewWriterSize":      {1},
	"reflect.MakeSlice":        {1, 2},
	"io.ReadAll":               nil, // anything
	"io/ioutil.ReadAll":        nil,
	"(*bytes.Buffer).ReadFrom": nil,
	"os.ReadFile":              nil,
	"io/ioutil.ReadFile":       nil,
}

// allocates reports whether a function makes something whose size is not
// constant.
func allocates(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.MakeSlice:
				return true
			case *ssa.MakeMap:
				if i.Reserve != nil {
					return true
				}
			case *ssa.MakeChan:
				return true
			case ssa.CallInstruction:
				if _, ok := sized[staticName2(i.Common())]; ok {
					return true
				}
			}
		}
	}
	return false
}

// inMemory reports whether a number is put together from constants, lengths of
// things that are in memory and what the user asked for.
func inMemory(t *ai.Term, lib bool) bool {
	if t.IsConst() {
		return true
	}
	switch t.Op {
	case ai.OApp:
		switch t.S {
		case "len", "strlen", "maplen", "cap", "rngcount", "nat":
			return true
		}
		if strings.HasPrefix(t.S, "nat:") || strings.HasPrefix(t.S, "len") {
			return true
		}
	case ai.OSym:
		return lib && !strings.HasPrefix(t.S, "l#")
	}
	if len(t.A) == 0 {
		return false
	}
	switch t.Op {
	case ai.OApp, ai.OObj, ai.OPtr, ai.OTuple, ai.OSlice, ai.OIface:
		return false
	}
	for _, a := range t.A {
		if !inMemory(a, lib) {
			return false
		}
	}
	return true
}

// small decides that a size is bounded by a constant or by the amount of data
// in memory.
func small(st *ai.State, t *ai.Term, lib bool) bool {
	if n, ok := isConstInt(t); ok {
		return n >= 0 && n <= maxAlloc
	}
	if inMemory(t, lib) {
		return true
	}
	if holds(st, ai.Le(false, t, ai.Int(t.W, maxAlloc))) {
		return true
	}
	seen := map[*ai.Term]bool{}
	found := false
	st.Facts.Each(func(l *ai.Term) bool {
		l.Walk(func(b *ai.Term) bool {
			if !found && !seen[b] && b.W == t.W && !b.IsConst() && b.Op != ai.OBool && inMemory(b, lib) {
				seen[b] = true
				found = holds(st, ai.Le(false, t, b))
			}
			return !found
		})
		return !found
	})
	return found
}

func isConstInt(t *ai.Term) (int64, bool) {
	if t.IsConst() && t.Op == ai.OInt {
		return t.SVal(), true
	}
	return 0, false
}

func checkC18(c *Check) {
	c.Rules = map[string]string{
		"size": "the size of every allocation is bounded by a constant of at most 64 Mi elements or by the length of data that is in memory, or comes from what the user asked for",
	}
	c.Assume = append(c.Assume,
		"what grows piece by piece (append, maps) grows with the data that was read",
		"the parameters of functions that no command reaches are not taken from the disk")
	ps := c.programs(allocates)
	type verdict struct {
		ok        bool
		pos, what string
	}
	all := map[[2]string]*verdict{}
	note := func(rule, w, pos string, ok bool, what string) {
		k := [2]string{rule, w}
		v := all[k]
		if v == nil {
			v = &verdict{ok: true, pos: pos}
			all[k] = v
		}
		if !ok {
			v.ok, v.what = false, what
		}
		c.Counts[rule]++
	}
	for _, p := range ps.parts {
		lib := p.cmd == "library"
		for _, e := range p.all {
			var is []int
			switch e.Kind {
			case "alloc":
				for i := range e.Args {
					is = append(is, i)
				}
			case "call":
				l, ok := sized[opName(e)]
				if !ok {
					continue
				}
				is = l
				if l == nil {
					w, pos := eventWhere(c, e)
					note("size", w, pos, false, "everything that can be read is put into memory")
				}
			default:
				continue
			}
			w, pos := eventWhere(c, e)
			for _, i := range is {
				if i >= len(e.Args) {
					continue
				}
				st := &ai.State{Facts: e.Facts}
				ok := small(st, e.Args[i], lib)
				note("size", w, pos, ok, "the size is not bounded: "+cut(e.Args[i].String(), 120))
			}
		}
	}
	var ks [][2]string
	for k := range all {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0]+ks[i][1] < ks[j][0]+ks[j][1] })
	for _, k := range ks {
		v := all[k]
		c.Ob(v.ok, k[0], k[1], v.pos, "%s", v.what)
	}
	n := 0
	for _, k := range ks {
		if k[0] == "size" {
			n++
		}
	}
	c.Ob(n >= 5, "size", "btrfscue", "", "only %d allocations were found", n)
}
