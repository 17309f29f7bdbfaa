package ai

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var purePkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true, "time": true}

var impure = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": true, "path/filepath.WalkDir": true,
	"time.Now": true, "time.Since": true, "time.Sleep": true, "path/filepath.Rel": true,
}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "bytes.Equal": true, "bytes.Compare": true, "bytes.Contains": true,
	"bytes.HasPrefix": true, "bytes.IndexByte": true, "strconv.Itoa": true, "strconv.FormatUint": true, "strconv.FormatInt": true, "strconv.Quote": true,
	"os.IsExist": true, "os.SameFile": true, "os.IsNotExist": true, "errors.Is": true, "encoding/hex.EncodeToString": true, "encoding/hex.EncodedLen": true, "encoding/hex.DecodedLen": true,
}

// purePkg reports whether a function belongs to a package of pure functions.
func purePkg(name string) bool {
	if impure[name] || strings.HasPrefix(name, "(") {
		return strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "(io/fs.FileInfo).") || strings.HasPrefix(name, "(io/fs.FileMode).") || name == "(error).Error"
	}
	i := strings.LastIndexByte(name, '.')
	return i > 0 && purePkgs[name[:i]]
}

// LessAt evaluates the order used by a sort event for two positions.
func (x *Exec) LessAt(ev *Event, st *State, i, j *Term) (outs []Outcome, reversed bool) {
	x.loopsInit()
	s := st.Clone()
	ob, onev, mem := x.OnOb, x.OnEvent, x.OnMem
	x.OnOb, x.OnEvent, x.OnMem = nil, nil, nil
	defer func() { x.OnOb, x.OnEvent, x.OnMem = ob, onev, mem }()
	a := ev.Args[0]
	for a.Op == OApp && a.S == "nn:sort.Reverse" {
		a = a.A[0]
		reversed = !reversed
	}
	if len(ev.Args) > 1 && ev.Args[1].Op == OClo {
		f := ev.Args[1].X.(*ssa.Function)
		return x.runFn(f, []*Term{i, j}, ev.Args[1].A, s, nil, ""), reversed
	}
	if a.Op != OIface {
		return nil, false
	}
	t := a.X.(types.Type)
	ms := x.Prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == "Less" {
			if f := x.Prog.MethodValue(ms.At(k)); f != nil {
				return x.runFn(f, []*Term{a.A[0], i, j}, nil, s, nil, ""), reversed
			}
		}
	}
	return nil, reversed
}

// Sorted is the slice that a sort event orders.
func Sorted(ev *Event) *Term {
	a := ev.Args[0]
	for a.Op == OApp && a.S == "nn:sort.Reverse" {
		a = a.A[0]
	}
	if a.Op == OIface {
		a = a.A[0]
	}
	return a
}

// ElemType is the element type of the slice an append event extends.
func (x *Exec) ElemType(ev *Event) types.Type {
	if c, ok := ev.Instr.(*ssa.Call); ok && len(c.Call.Args) > 0 {
		if s, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

// ElemOf splits the address of an array element.
func ElemOf(p *Term) (region, idx *Term, ok bool) {
	a := split(p)
	if a.idx == nil || a.sub != "" {
		return nil, nil, false
	}
	return addr{base: a.base, path: a.path}.term(), a.idx, true
}
