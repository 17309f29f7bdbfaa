package ai

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SplitReads tells apart reads that give all bytes together with an error.
var SplitReads bool

// ErrUnused tells whether nobody looks at the error result of a call.
func (c *Call) ErrUnused() bool {
	switch i := c.Instr.(type) {
	case *ssa.Defer, *ssa.Go:
		return true
	case *ssa.Call:
		n := c.Sig.Results().Len()
		if n == 0 {
			return true
		}
		refs := i.Referrers()
		if refs == nil {
			return true
		}
		if n == 1 {
			return len(*refs) == 0
		}
		for _, r := range *refs {
			e, ok := r.(*ssa.Extract)
			if !ok {
				return false
			}
			if e.Index == n-1 && e.Referrers() != nil && len(*e.Referrers()) > 0 {
				return false
			}
		}
		return true
	}
	return false
}

// fork returns a success and a failure outcome.
func (c *Call) Fork(ok func(st *State) *Term, bad func(st *State, err *Term) *Term) []Outcome {
	st2 := c.St.Clone()
	r := ok(c.St)
	c.Event(c.St, "call", c.Name, c.Args, r)
	e := bad(st2, c.X.NewErr(c.Name))
	c.Event(st2, "call", c.Name, c.Args, e)
	return []Outcome{{"return", c.St, r}, {"return", st2, e}}
}

// StdModels returns the models of the library functions in use.
func StdModels() map[string]Model {
	m := map[string]Model{}
	for _, e := range []struct{ t, s string }{{"littleEndian", "LE"}, {"bigEndian", "BE"}} {
		for _, w := range []int{16, 32, 64} {
			w, s := w, e.s
			m["(encoding/binary."+e.t+").Uint"+itoa(int64(w))] = func(c *Call) []Outcome {
				sl := c.Args[len(c.Args)-1]
				if sl.Op != OSlice {
					return nil
				}
				c.Need("index", Le(true, I64(int64(w/8)), sl.A[2]))
				return c.Quiet(c.St.ReadInt(sl.A[0], sl.A[1], w/8, s))
			}
			m["(encoding/binary."+e.t+").PutUint"+itoa(int64(w))] = func(c *Call) []Outcome {
				sl, v := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
				if sl.Op != OSlice {
					return nil
				}
				c.Need("index", Le(true, I64(int64(w/8)), sl.A[2]))
				c.St.Reg(sl.A[0], byteType)
				c.St.Write(sl.A[0], Write{kind: wInt, off: sl.A[1], n: I64(int64(w / 8)), val: v, endian: s})
				return c.Quiet(Tuple())
			}
			m["(encoding/binary."+e.t+").AppendUint"+itoa(int64(w))] = func(c *Call) []Outcome {
				s0, v := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
				if s0.Op != OSlice {
					return nil
				}
				o := c.NewObj("append")
				st := c.St
				r := &Reg{elem: byteType, zero: true, ver: App("zeroreg", 0)}
				if s0.A[2] != I64(0) {
					r = r.write(st, Write{kind: wCopy, off: I64(0), n: s0.A[2], src: st.Reg(s0.A[0], byteType), srcOff: s0.A[1]})
				}
				r = r.write(st, Write{kind: wInt, off: s0.A[2], n: I64(int64(w / 8)), val: v, endian: s})
				st.regs[o] = r
				l := AddK(s0.A[2], int64(w/8))
				return c.Quiet(SliceV(o, I64(0), l, Add(l, App("nat:grow", 64, o)), Bool(false)))
			}
		}
	}
	m["bytes.Equal"] = func(c *Call) []Outcome {
		a, b := c.Args[0], c.Args[1]
		if a.Op != OSlice || b.Op != OSlice {
			return nil
		}
		if n := a.A[2]; n.Op == OInt && n == b.A[2] && n.K <= 64 {
			// compare element by element if the content is known
			eq := true
			for i := int64(0); i < int64(n.K); i++ {
				x := c.St.ReadElem(a.A[0], AddK(a.A[1], i), byteType)
				y := c.St.ReadElem(b.A[0], AddK(b.A[1], i), byteType)
				if x != y {
					if x.Op == OInt && y.Op == OInt {
						return c.Quiet(Bool(false))
					}
					eq = false
				}
			}
			if eq {
				return c.Quiet(Bool(true))
			}
		}
		t := App("bytes.Equal", 0, c.X.Pack(c.St, a, c.argT(0)), c.X.Pack(c.St, b, c.argT(1)), a.A[2], b.A[2])
		st2 := c.St.Clone()
		c.X.Assume(c.St, t)
		c.X.Assume(c.St, Eq(a.A[2], b.A[2]))
		c.X.Assume(st2, Not(t))
		out := []Outcome{{"return", c.St, Bool(true)}, {"return", st2, Bool(false)}}
		if f := out[0].St.Facts; f.Holds(Eq(a.A[2], b.A[2])) < 0 {
			return out[1:]
		}
		return out
	}
	m["errors.New"] = func(c *Call) []Outcome { return c.Quiet(App("err:errors.New", 0, c.Args[0])) }
	m["fmt.Errorf"] = func(c *Call) []Outcome {
		as := []*Term{c.Args[0]}
		for _, e := range c.X.Unlist(c.St, c.Args[1], types.NewInterfaceType(nil, nil)) {
			if e.Op == OIface {
				e = c.X.Pack(c.St, e.A[0], e.X.(types.Type))
			}
			as = append(as, e)
		}
		return c.Ret(App("err:fmt.Errorf", 0, as...))
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln",
		"(*text/tabwriter.Writer).Flush", "io.WriteString", "(*text/tabwriter.Writer).Write"} {
		m[n] = func(c *Call) []Outcome {
			return c.Ret(c.X.Fresh("print", tupleOf(c.Sig)))
		}
	}
	m["text/tabwriter.NewWriter"] = func(c *Call) []Outcome {
		o := c.NewObj("tabwriter")
		c.St.SetGhost(o, "writer", c.Args[0])
		return c.Ret(o)
	}
	m["os.Exit"] = func(c *Call) []Outcome {
		c.Event(c.St, "exit", c.Name, c.Args, nil)
		return []Outcome{{"exit", c.St, c.Args[0]}}
	}
	open := func(c *Call) []Outcome {
		return c.Fork(func(st *State) *Term {
			o := c.NewObj("file")
			st.SetGhost(o, "open", Bool(true))
			st.SetGhost(o, "path", c.Args[0])
			how := c.Name
			if how == "os.OpenFile" && len(c.Args) > 1 && c.Args[1].IsConst() && c.Args[1].SVal()&(3|0x40|0x200) == 0 {
				how = "os.Open" // for reading only
			}
			st.SetGhost(o, "how", Str(how))
			if len(c.Args) > 1 {
				st.SetGhost(o, "flags", c.Args[1])
			}
			return Tuple(o, Nil)
		}, func(st *State, err *Term) *Term { return Tuple(Nil, err) })
	}
	for _, n := range []string{"os.Open", "os.OpenFile", "os.Create"} {
		m[n] = open
	}
	m["(*os.File).Close"] = func(c *Call) []Outcome {
		c.St.SetGhost(c.Args[0], "open", Bool(false))
		if c.ErrUnused() {
			return c.Ret(c.X.Fresh("close", c.Sig.Results().At(0).Type()))
		}
		return c.Fork(func(st *State) *Term { return Nil }, func(st *State, err *Term) *Term { return err })
	}
	readAt := func(c *Call) []Outcome {
		f, p, off := c.Args[0], c.Args[1], c.Args[2]
		if p.Op != OSlice {
			return nil
		}
		n := p.A[2]
		st2 := c.St.Clone()
		c.St.Reg(p.A[0], byteType)
		st2.Reg(p.A[0], byteType)
		c.St.Write(p.A[0], Write{kind: wDev, off: p.A[1], n: n, val: f, srcOff: off})
		r := Tuple(n, Nil)
		c.Event(c.St, "call", "ReadAt", c.Args, r)
		k := Sym("n", 64, types.Typ[types.Int])
		c.X.Assume(st2, Le(true, I64(0), k))
		c.X.Assume(st2, Le(true, k, n))
		st2.Write(p.A[0], Write{kind: wOpaque, off: p.A[1], n: n, val: Sym("junk", 0, nil)})
		st2.Write(p.A[0], Write{kind: wDev, off: p.A[1], n: k, val: f, srcOff: off})
		e := Tuple(k, c.X.NewErr("ReadAt"))
		if SplitReads {
			st3 := st2.Clone()
			c.X.Assume(st2, Lt(true, k, n))
			c.X.Assume(st3, Eq(k, n))
			e3 := Tuple(n, c.X.NewErr("ReadAt"))
			c.Event(st3, "call", "ReadAt", c.Args, e3)
			c.Event(st2, "call", "ReadAt", c.Args, e)
			return []Outcome{{"return", c.St, r}, {"return", st2, e}, {"return", st3, e3}}
		}
		c.Event(st2, "call", "ReadAt", c.Args, e)
		return []Outcome{{"return", c.St, r}, {"return", st2, e}}
	}
	m["(*os.File).ReadAt"] = readAt
	m["(io.ReaderAt).ReadAt"] = readAt
	m["(*os.File).WriteAt"] = func(c *Call) []Outcome {
		p := c.Args[1]
		if p.Op != OSlice {
			return nil
		}
		return c.Fork(func(st *State) *Term { return Tuple(p.A[2], Nil) }, func(st *State, err *Term) *Term {
			k := Sym("n", 64, types.Typ[types.Int])
			c.X.Assume(st, Le(true, I64(0), k))
			c.X.Assume(st, Le(true, k, p.A[2]))
			return Tuple(k, err)
		})
	}
	m["(*os.File).Write"] = m["(*os.File).WriteAt"]
	m["(*os.File).Seek"] = func(c *Call) []Outcome {
		return c.Fork(func(st *State) *Term {
			s := App("seek", 64, c.Args[0], c.Args[1], c.Args[2])
			s.T = types.Typ[types.Int64]
			c.X.Assume(st, Le(true, I64(0), s))
			return Tuple(s, Nil)
		}, func(st *State, err *Term) *Term {
			return Tuple(Sym("seek?", 64, types.Typ[types.Int64]), err)
		})
	}
	plain := func(c *Call) []Outcome { // nothing the program can see is modified
		if c.ErrUnused() && isErrSig(c.Sig) {
			return c.Ret(c.X.Fresh(short(c.Name), tupleOf(c.Sig)))
		}
		return c.X.Results(c, c.Name)
	}
	for _, n := range []string{"(*os.File).Truncate", "(*os.File).Sync", "(*os.File).Stat", "os.Lstat", "os.Stat", "os.Mkdir", "os.MkdirAll", "os.Remove", "os.RemoveAll",
		"os.Rename", "os.Symlink", "os.Link", "os.Chmod", "os.Chown", "os.Chtimes", "os.Truncate", "os.Readlink", "path/filepath.EvalSymlinks", "path/filepath.Abs",
		"path/filepath.Rel", "os.WriteFile", "os.ReadFile", "syscall.Stat"} {
		m[n] = plain
	}
	for _, n := range []string{"os.Lstat", "os.Stat", "(*os.File).Stat"} {
		m[n] = func(c *Call) []Outcome {
			t := c.Sig.Results().At(0).Type()
			return c.Fork(func(st *State) *Term {
				fi := App("nn:fileinfo", 0, Str(c.Name), c.Args[0], Sym("fi", 0, nil))
				fi.T = t
				return Tuple(fi, Nil)
			}, func(st *State, err *Term) *Term { return Tuple(Nil, err) })
		}
	}
	m["syscall.Stat"] = func(c *Call) []Outcome {
		c.X.havocArg(c.St, c.Args[1], c.argT(1))
		return plain(c)
	}
	lock := func(c *Call) []Outcome {
		p := c.Args[0]
		h := c.St.Ghost(p, "held")
		c.Need("deadlock", Bool(h == nil || h.False()))
		c.X.lockShared(c)
		c.St.SetGhost(p, "held", Bool(true))
		c.Event(c.St, "lock", c.Name, c.Args, nil)
		return []Outcome{{"return", c.St, Tuple()}}
	}
	unlock := func(c *Call) []Outcome {
		p := c.Args[0]
		h := c.St.Ghost(p, "held")
		c.Need("unlock", Bool(h != nil && h.True()))
		c.St.SetGhost(p, "held", Bool(false))
		c.Event(c.St, "unlock", c.Name, c.Args, nil)
		return []Outcome{{"return", c.St, Tuple()}}
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		m[t+".Lock"] = lock
		m[t+".Unlock"] = unlock
		m[t+".RLock"] = lock
		m[t+".RUnlock"] = unlock
	}
	m["sort.Search"] = sortSearch
	m["sort.Sort"] = sortSort
	m["sort.Stable"] = sortSort
	m["sort.Reverse"] = func(c *Call) []Outcome {
		t := App("nn:sort.Reverse", 0, c.Args[0])
		return c.Quiet(t)
	}
	m["sort.Slice"] = func(c *Call) []Outcome {
		permute(c, c.Args[0])
		c.Event(c.St, "sort", c.Name, c.Args, nil)
		return []Outcome{{"return", c.St, Tuple()}}
	}
	m["sort.SliceStable"] = m["sort.Slice"]
	m["hash/crc32.MakeTable"] = func(c *Call) []Outcome {
		t := App("nn:crc32.MakeTable", 0, c.Args[0])
		t.T = c.Sig.Results().At(0).Type()
		return c.Quiet(t)
	}
	for _, n := range []string{"hash/crc32.Update", "hash/crc32.Checksum"} {
		n := n
		m[n] = func(c *Call) []Outcome {
			var as []*Term
			for i, a := range c.Args {
				as = append(as, c.X.Pack(c.St, a, c.argT(i)))
			}
			return c.Quiet(App(n, 32, as...))
		}
	}
	for _, n := range []string{"math/rand.Int63n", "math/rand.Intn", "math/rand.Int31n"} {
		m[n] = func(c *Call) []Outcome {
			n := c.Args[0]
			c.Need("rand", Lt(true, Int(n.W, 0), n))
			r := Sym("rand", n.W, c.Sig.Results().At(0).Type())
			c.X.Assume(c.St, Le(true, Int(n.W, 0), r))
			c.X.Assume(c.St, Lt(true, r, n))
			return c.Quiet(r)
		}
	}
	m["math/rand.Seed"] = func(c *Call) []Outcome { return c.Quiet(Tuple()) }
	m["time.Now"] = func(c *Call) []Outcome { return c.Quiet(c.X.Fresh("now", c.Sig.Results().At(0).Type())) }
	for _, n := range []string{"UTC", "Local"} {
		n := n
		m["(time.Time)."+n] = func(c *Call) []Outcome {
			t := App("(time.Time)."+n, 0, c.Args[0])
			t.T = c.Sig.Results().At(0).Type()
			return c.Quiet(t)
		}
	}
	for _, n := range []string{"Unix", "Nanosecond", "UnixNano"} {
		n := n
		m["(time.Time)."+n] = func(c *Call) []Outcome {
			t := c.Args[0]
			for t.Op == OApp && (t.S == "(time.Time).UTC" || t.S == "(time.Time).Local") {
				t = t.A[0]
			}
			r := App("(time.Time)."+n, 64, t)
			r.T = c.Sig.Results().At(0).Type()
			return c.Quiet(r)
		}
	}
	m["encoding/hex.DecodeString"] = func(c *Call) []Outcome {
		s := c.Args[0]
		return c.Fork(func(st *State) *Term {
			r := App("hexdec", 0, s)
			v := c.X.SliceOf(r)
			v = SliceV(v.A[0], v.A[1], v.A[2], v.A[3], Bool(false))
			c.X.Assume(st, Eq(Mul(I64(2), v.A[2]), StrLen(s)))
			c.X.Assume(st, App("allhex", 0, s))
			return Tuple(v, Nil)
		}, func(st *State, err *Term) *Term {
			return Tuple(c.X.SliceOf(Sym("hexpart", 0, nil)), err)
		})
	}
	m["strings.Split"] = func(c *Call) []Outcome {
		v := c.X.SliceOf(App("strings.Split", 0, c.Args...))
		if c.Args[1].Op == OStr && c.Args[1].S != "" {
			c.X.Assume(c.St, Lt(true, I64(0), v.A[2]))
		}
		c.Event(c.St, "call", c.Name, c.Args, v)
		return c.Quiet(v)
	}
	m["os.Getenv"] = func(c *Call) []Outcome { return c.Quiet(c.X.Val("env", types.Typ[types.String], c.Args[0])) }
	m["os/signal.Notify"] = func(c *Call) []Outcome { return c.Ret(Tuple()) }
	m["math.Log2"] = func(c *Call) []Outcome { return c.Quiet(App("math.Log2", 0, c.Args[0])) }
	return m
}

func isErrSig(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && isError(s.Results().At(n-1).Type())
}

func tupleOf(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func sortSearch(c *Call) []Outcome {
	n, f := c.Args[0], c.Args[1]
	if f.Op != OClo {
		return nil
	}
	x := c.X
	var outs []Outcome
	// apply runs f(i) on a state and keeps the states in which it gives want
	apply := func(st *State, i *Term, want bool) []*State {
		var r []*State
		for _, o := range c.Invoke(f, []*Term{i}, st) {
			if o.Kind != "return" {
				outs = append(outs, o)
				continue
			}
			l := o.Ret
			if !want {
				l = Not(l)
			}
			if o.St.Facts.Holds(l) < 0 {
				continue
			}
			x.Assume(o.St, l)
			r = append(r, o.St)
		}
		return r
	}
	done := func(st *State, i *Term) {
		c.Event(st, "call", c.Name, c.Args, i)
		outs = append(outs, Outcome{"return", st, i})
	}
	base := c.St
	try := func(ls ...*Term) *State {
		st := base.Clone()
		for _, l := range ls {
			if st.Facts.Holds(l) < 0 {
				return nil
			}
			x.Assume(st, l)
		}
		return st
	}
	if st := try(Le(true, n, I64(0))); st != nil {
		if st.Facts.Holds(Eq(n, I64(0))) >= 0 {
			done(st, I64(0))
		}
	}
	if st := try(Lt(true, I64(0), n)); st != nil {
		for _, s := range apply(st, AddK(n, -1), false) {
			done(s, n)
		}
	}
	if st := try(Lt(true, I64(0), n)); st != nil {
		for _, s := range apply(st, I64(0), true) {
			done(s, I64(0))
		}
	}
	i := Sym("i", 64, types.Typ[types.Int])
	if st := try(Lt(true, I64(0), i), Lt(true, i, n)); st != nil {
		for _, s := range apply(st, i, true) {
			for _, s2 := range apply(s, AddK(i, -1), false) {
				done(s2, i)
			}
		}
	}
	return outs
}

// permute makes the order of the elements of a slice unknown.
func permute(c *Call, a *Term) {
	for a.Op == OApp && a.S == "nn:sort.Reverse" {
		a = a.A[0]
	}
	if a.Op == OIface {
		a = a.A[0]
	}
	if a.Op != OSlice || a.A[0].Op == ONil {
		return
	}
	r := c.St.Reg(a.A[0], nil)
	v := Sym("perm", 0, nil)
	if w := r.w; w != nil && w.kind == wComp && w.prev == nil && w.val != compPending && a.A[1] == w.off && a.A[2] == w.n {
		// every element is the one at another position
		q := App("perm", 64, v, compAt)
		q.T = types.Typ[types.Int]
		m := map[*Term]*Term{compAt: q}
		nw := &Write{kind: wComp, off: w.off, n: w.n, val: Subst(w.val, m)}
		for _, f := range w.facts {
			nw.facts = append(nw.facts, Subst(f, m))
		}
		nw.facts = append(nw.facts, Le(true, w.off, q), Lt(true, q, Add(w.off, w.n)))
		nr := &Reg{elem: r.elem, n: r.n, zero: r.zero, raw: r.raw, w: nw}
		nr.ver = nw.verTerm(nr.baseVer())
		c.St.regs[a.A[0]] = nr
		return
	}
	nr := &Reg{elem: r.elem, n: r.n, raw: v, ver: v}
	if r.sum != nil && r.w == nil {
		nr.sum = r.sum
		nr.ver = nr.baseVer()
	}
	c.St.regs[a.A[0]] = nr
}

func sortSort(c *Call) []Outcome {
	permute(c, c.Args[0])
	c.Event(c.St, "sort", c.Name, c.Args, nil)
	return []Outcome{{"return", c.St, Tuple()}}
}

// IgnoredPkg tells whether calls into a package have no relevant effect.
func IgnoredPkg(name string) bool {
	return strings.Contains(name, "github.com/cheggaaa/pb/")
}

func (x *Exec) ignored(cl *Call) []Outcome {
	for _, a := range cl.Args {
		if a.Op != OIface || a.X == nil {
			continue
		}
		if _, ok := a.X.(types.Type).Underlying().(*types.Pointer); ok {
			cl.Event(cl.St, "call", cl.Name, cl.Args, nil)
			break
		}
	}
	rt := cl.Sig.Results()
	var vs []*Term
	for i := 0; i < rt.Len(); i++ {
		v := x.Fresh(short(cl.Name), rt.At(i).Type())
		if _, ok := rt.At(i).Type().Underlying().(*types.Pointer); ok {
			x.Assume(cl.St, Not(Eq(v, Nil)))
		}
		vs = append(vs, v)
	}
	return []Outcome{{"return", cl.St, pack(vs)}}
}

// RunInit interprets the variable initialisers of packages and returns a
// state in which package variables that nobody modifies have their values.
func (x *Exec) RunInit(pkgs []*ssa.Package, constant func(g *ssa.Global) bool) *State {
	x.loopsInit()
	st := x.NewState()
	x.SkipInit = true
	ob, ev, mem := x.OnOb, x.OnEvent, x.OnMem
	x.OnOb, x.OnMem = nil, nil
	if !x.InitEvents {
		x.OnEvent = nil
	}
	for _, p := range pkgs {
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
			st.cells[cellKey{globalObj(g), ""}] = Bool(false)
		}
		x.inInit = f
		outs := x.runFn(f, nil, nil, st, nil, "")
		x.inInit = nil
		n := 0
		for _, o := range outs {
			if o.Kind == "return" {
				st = o.St
				n++
			}
		}
		if n != 1 {
			x.fail("initialisation of %s has %d outcomes", p.Pkg.Path(), n)
		}
	}
	x.OnOb, x.OnEvent, x.OnMem = ob, ev, mem
	for _, p := range pkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || constant(g) {
				continue
			}
			o := globalObj(g)
			for k := range st.cells {
				if k.base == o {
					delete(st.cells, k)
				}
			}
			for k := range st.regs {
				if split(k).base == o {
					delete(st.regs, k)
				}
			}
		}
	}
	st.Trace = nil
	return st
}

var _ = constant.MakeBool
