package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// anchors keeps calls of the given functions (by short name) as operations
// described by models.
func anchors(m map[string]ai.Model) func(fn *ssa.Function) ai.Model {
	return func(fn *ssa.Function) ai.Model {
		if fn.Pkg == nil && fn.Object() == nil {
			return nil
		}
		return m[fnShort(fn)]
	}
}

const ixT = "(*pkg/btrfs/index.Index)."

// failing is the model of an operation that returns just an error.
func failing(c *ai.Call) []ai.Outcome {
	return c.Fork(func(st *ai.State) *ai.Term { return ai.Nil }, func(st *ai.State, err *ai.Term) *ai.Term { return err })
}

// writeAPI describes the part of the index package that recon uses.
func writeAPI() map[string]ai.Model {
	open := func(c *ai.Call) []ai.Outcome {
		return c.Fork(func(st *ai.State) *ai.Term {
			o := c.NewObjIn(st, "index")
			st.SetGhost(o, "open", ai.Bool(true))
			return ai.Tuple(o, ai.Nil)
		}, func(st *ai.State, err *ai.Term) *ai.Term { return ai.Tuple(ai.Nil, err) })
	}
	return map[string]ai.Model{
		"pkg/btrfs/index.Open":         open,
		"pkg/btrfs/index.OpenReadOnly": open,
		ixT + "Close": func(c *ai.Call) []ai.Outcome {
			c.Need("nil", ai.Not(ai.Eq(c.Args[0], ai.Nil)))
			c.St.SetGhost(c.Args[0], "open", ai.Bool(false))
			return failing(c)
		},
		ixT + "InsertItem": failing,
		ixT + "Commit":     failing,
	}
}

// loopReads lists events of a name in the trace of a state after an event.
func since(st *ai.State, from *ai.Event) []*ai.Event {
	var r []*ai.Event
	for e := st.Trace; e != nil && e != from; e = e.Prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func named(es []*ai.Event, suffix ...string) []*ai.Event {
	var r []*ai.Event
	for _, e := range es {
		if evIs(e, suffix...) {
			r = append(r, e)
		}
	}
	return r
}

var _ = strings.HasPrefix
