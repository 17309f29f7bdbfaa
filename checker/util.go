package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (p *Program) method(t *ssa.Type, name string) *ssa.Function {
	for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.Prog.MethodSets.MethodSet(typ)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name && s.Obj().Pkg() == t.Package().Pkg {
				f := p.Prog.FuncValue(s.Obj().(*types.Func))
				if f != nil {
					return f
				}
			}
		}
	}
	return nil
}
