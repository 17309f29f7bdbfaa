package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

var (
	byteType = types.Typ[types.Uint8]
	intType  = types.Typ[types.Int]
	anyType  = types.Universe.Lookup("any").Type()
)

// flagPlace finds where the value of a command-line flag of a command is kept,
// as an address in the state its Run function starts in.
func (w *World) flagPlace(cmd *Command, flag string) (*ai.Term, types.Type) {
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				var addr ssa.Value
				is := false
				for i, a := range cl.Call.Args {
					k, ok := a.(*ssa.Const)
					if ok && k.Value != nil && k.Value.ExactString() == "\""+flag+"\"" && i > 0 {
						is = true
						addr = cl.Call.Args[i-1]
						break
					}
				}
				if !is || addr == nil {
					continue
				}
				if mi, ok := addr.(*ssa.MakeInterface); ok {
					addr = mi.X
				}
				pt, ok := addr.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				if t := w.place(cmd, f, addr); t != nil {
					return t, pt.Elem()
				}
			}
		}
	}
	return nil, nil
}

func (w *World) place(cmd *Command, f *ssa.Function, v ssa.Value) *ai.Term {
	switch a := v.(type) {
	case *ssa.ChangeType:
		return w.place(cmd, f, a.X)
	case *ssa.FieldAddr:
		b := w.place(cmd, f, a.X)
		if b == nil {
			return nil
		}
		return ai.FieldAddr(b, a.Field)
	case *ssa.Global:
		return ai.GlobalAddr(a)
	case *ssa.Alloc:
		if cmd.Run == nil || cmd.Run.Parent() != f {
			return nil
		}
		for _, r := range *a.Referrers() {
			mc, ok := r.(*ssa.MakeClosure)
			if !ok || mc.Fn != cmd.Run {
				continue
			}
			for i, b := range mc.Bindings {
				if b == a {
					return ai.FreeVar(cmd.Run.FreeVars[i])
				}
			}
		}
	}
	return nil
}

var intTypeU = types.Typ[types.Uint64]
