package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cellKey struct {
	base *Term
	path string
}

// State is the abstract memory on one path.
type State struct {
	cells map[cellKey]*Term
	regs  map[*Term]*Reg
	maps  map[*Term]*MapC
	alloc map[string]int
	Facts *Facts
	Trace *Event
	x     *Exec
	owned bool
}

func (s *State) Clone() *State {
	n := &State{Facts: s.Facts, Trace: s.Trace, x: s.x}
	n.cells = make(map[cellKey]*Term, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.regs = make(map[*Term]*Reg, len(s.regs)+2)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.maps = make(map[*Term]*MapC, len(s.maps)+2)
	for k, v := range s.maps {
		n.maps[k] = v
	}
	n.alloc = make(map[string]int, len(s.alloc)+2)
	for k, v := range s.alloc {
		n.alloc[k] = v
	}
	return n
}

func (x *Exec) NewState() *State {
	return &State{cells: map[cellKey]*Term{}, regs: map[*Term]*Reg{}, maps: map[*Term]*MapC{}, alloc: map[string]int{}, Facts: emptyFacts, x: x}
}

// Event is a node of the history of a path.
type Event struct {
	Prev  *Event
	N     int
	Kind  string // call, loop, recurse, store, lock, ...
	Name  string
	Args  []*Term
	Res   *Term
	Instr ssa.Instruction
	Fn    *ssa.Function
	Facts *Facts
	St    *State // state right before the event (recording only)
	Loop  *LoopRun
	Depth int
	Stack []*ssa.Function
}

// ---------------------------------------------------------------- types

func width(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Val builds the symbolic value fn(args...) of a type.
func (x *Exec) Val(fn string, typ types.Type, args ...*Term) *Term {
	if x.Opaque(typ) {
		t := App(fn, 0, args...)
		t.T = typ
		return t
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		w, _ := width(typ)
		t := App(fn, w, args...)
		t.T = typ
		return t
	case *types.Struct:
		f := make([]*Term, u.NumFields())
		for i := range f {
			f[i] = x.Val(fn+"."+strconv.Itoa(i), u.Field(i).Type(), args...)
		}
		return Struct(f...)
	case *types.Array:
		if u.Len() <= 64 {
			f := make([]*Term, u.Len())
			for i := range f {
				f[i] = x.Val(fn+"["+strconv.Itoa(i)+"]", u.Elem(), args...)
			}
			return Struct(f...)
		}
		return App(fn, 0, args...)
	case *types.Slice:
		root := App(fn, 0, args...)
		root.T = typ
		return x.SliceOf(root)
	case *types.Tuple:
		f := make([]*Term, u.Len())
		for i := range f {
			f[i] = x.Val(fn+"#"+strconv.Itoa(i), u.At(i).Type(), args...)
		}
		return Tuple(f...)
	}
	t := App(fn, 0, args...)
	t.T = typ
	return t
}

// SliceOf is the slice value named root.
func (x *Exec) SliceOf(root *Term) *Term {
	l := App("len", 64, root)
	return SliceV(App("reg", 0, root), I64(0), l, Add(l, App("nat:slack", 64, root)), App("isnil", 0, root))
}

// Root returns the name of a slice value that is a complete symbolic slice.
func Root(s *Term) *Term {
	if s.Op == OSlice && s.A[0].Op == OApp && s.A[0].S == "reg" && s.A[1] == I64(0) {
		r := s.A[0].A[0]
		if s.A[2] == App("len", 64, r) {
			return r
		}
	}
	return nil
}

// Fresh returns a fresh value of a type.
func (x *Exec) Fresh(name string, typ types.Type) *Term {
	if w, _ := width(typ); w > 0 {
		return Sym(name, w, typ)
	}
	switch typ.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Slice, *types.Tuple:
		if !x.Opaque(typ) {
			return x.Val("v", typ, Sym(name, 0, typ))
		}
	}
	return Sym(name, 0, typ)
}

// Zero returns the zero value of a type.
func (x *Exec) Zero(typ types.Type) *Term {
	if x.Opaque(typ) {
		return App("zero:"+types.TypeString(typ, nil), 0)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if w, _ := width(typ); w > 0 {
			return Int(w, 0)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsFloat != 0:
			return mk(OFloat, 0, 0, "0", nil, nil)
		}
		return Nil
	case *types.Struct:
		f := make([]*Term, u.NumFields())
		for i := range f {
			f[i] = x.Zero(u.Field(i).Type())
		}
		return Struct(f...)
	case *types.Array:
		if u.Len() <= 64 {
			f := make([]*Term, u.Len())
			for i := range f {
				f[i] = x.Zero(u.Elem())
			}
			return Struct(f...)
		}
		return App("zeroarr", 0)
	case *types.Slice:
		return NilSlice
	case *types.Tuple:
		f := make([]*Term, u.Len())
		for i := range f {
			f[i] = x.Zero(u.At(i).Type())
		}
		return Tuple(f...)
	}
	return Nil
}

var NilSlice = SliceV(Nil, I64(0), I64(0), I64(0), Bool(true))

// ---------------------------------------------------------------- addresses

type addr struct {
	base *Term
	path string
	idx  *Term
	sub  string
}

func split(p *Term) addr {
	if p.Op != OPtr {
		return addr{base: p}
	}
	if len(p.A) == 1 {
		return addr{base: p.A[0], path: p.S}
	}
	i := strings.IndexByte(p.S, '#')
	return addr{p.A[0], p.S[:i], p.A[1], p.S[i+1:]}
}

func (a addr) term() *Term {
	if a.idx != nil {
		return mk(OPtr, 0, 0, a.path+"#"+a.sub, nil, nil, a.base, a.idx)
	}
	if a.path == "" {
		return a.base
	}
	return Ptr(a.base, a.path)
}

func fieldAddr(p *Term, i int) *Term {
	a := split(p)
	if a.idx != nil {
		a.sub += "." + strconv.Itoa(i)
	} else {
		a.path += "." + strconv.Itoa(i)
	}
	return a.term()
}

func elemAddr(region, idx *Term) *Term {
	a := split(region)
	if a.idx != nil {
		// array inside an array element: name the inner array
		return mk(OPtr, 0, 0, "#", nil, nil, App("inner", 0, region), idx)
	}
	a.idx = idx
	return a.term()
}

func project(v *Term, sub string) *Term {
	for sub != "" {
		sub = sub[1:]
		j := strings.IndexByte(sub, '.')
		if j < 0 {
			j = len(sub)
		}
		i, _ := strconv.Atoi(sub[:j])
		sub = sub[j:]
		if v.Op != OStruct || i >= len(v.A) {
			return nil
		}
		v = v.A[i]
	}
	return v
}

func inject(v *Term, sub string, n *Term) *Term {
	if sub == "" {
		return n
	}
	s := sub[1:]
	j := strings.IndexByte(s, '.')
	if j < 0 {
		j = len(s)
	}
	i, _ := strconv.Atoi(s[:j])
	if v.Op != OStruct || i >= len(v.A) {
		return nil
	}
	a := append([]*Term(nil), v.A...)
	a[i] = inject(a[i], s[j:], n)
	if a[i] == nil {
		return nil
	}
	return Struct(a...)
}

// ---------------------------------------------------------------- cells

func (s *State) zeroed(base *Term) bool {
	return base.Op == OObj && !strings.HasPrefix(base.S, "global:")
}

// Load reads a value of a type.
func (s *State) Load(p *Term, typ types.Type) *Term {
	a := split(p)
	if a.idx != nil {
		arr := addr{base: a.base, path: a.path}.term()
		r := s.Reg(arr, nil)
		var et types.Type = typ
		if a.sub != "" && r.elem != nil {
			et = r.elem
		}
		v := s.ReadElem(arr, a.idx, et)
		if q := project(v, a.sub); q != nil {
			return q
		}
		return s.x.Val("proj"+a.sub, typ, v)
	}
	return s.load(a.base, a.path, typ)
}

func (s *State) load(base *Term, path string, typ types.Type) *Term {
	x := s.x
	if !x.Opaque(typ) {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			f := make([]*Term, u.NumFields())
			for i := range f {
				f[i] = s.load(base, path+"."+strconv.Itoa(i), u.Field(i).Type())
			}
			return Struct(f...)
		case *types.Array:
			arr := addr{base: base, path: path}.term()
			if u.Len() > 64 {
				r := s.Reg(arr, u.Elem())
				return App("arr", 0, r.ver)
			}
			f := make([]*Term, u.Len())
			for i := range f {
				f[i] = s.ReadElem(arr, I64(int64(i)), u.Elem())
			}
			return Struct(f...)
		}
	}
	if v, ok := s.cells[cellKey{base, path}]; ok {
		return v
	}
	var v *Term
	if s.zeroed(base) {
		v = x.Zero(typ)
	} else if base.Op == OObj {
		v = x.Val("global"+path, typ, base)
	} else {
		v = x.Val("*"+path, typ, base)
	}
	s.cells[cellKey{base, path}] = v
	return v
}

// Store writes a value of a type.
func (s *State) Store(p *Term, v *Term, typ types.Type) {
	a := split(p)
	if a.idx != nil {
		arr := addr{base: a.base, path: a.path}.term()
		r := s.Reg(arr, nil)
		if a.sub != "" {
			et := r.elem
			if et == nil {
				et = typ
			}
			old := s.ReadElem(arr, a.idx, et)
			if n := inject(old, a.sub, v); n != nil {
				v = n
			} else {
				v = Sym("elem", 0, nil)
			}
		}
		if r.elem == nil && a.sub == "" {
			c := *r
			c.elem = typ
			s.regs[arr] = &c
		}
		s.Write(arr, Write{kind: wElem, off: a.idx, n: I64(1), val: v})
		return
	}
	s.alias(a.base, typ)
	s.store(a.base, a.path, v, typ)
}

// alias forgets cells of other symbolic objects that may be the same object.
func (s *State) alias(base *Term, typ types.Type) {
	if base.Op == OObj {
		return
	}
	for k, v := range s.cells {
		if k.base != base && k.base.Op != OObj && k.base.T != nil && base.T != nil && types.Identical(k.base.T, base.T) && !strings.HasPrefix(k.path, "!") {
			s.cells[k] = s.x.freshLike(v)
		}
	}
}

func (x *Exec) freshLike(v *Term) *Term {
	if v.Op == OSlice {
		return x.SliceOf(Sym("v", 0, nil))
	}
	t := Sym("v", v.W, v.T)
	return t
}

func (s *State) store(base *Term, path string, v *Term, typ types.Type) {
	x := s.x
	if !x.Opaque(typ) {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				var fv *Term
				if v.Op == OStruct && i < len(v.A) {
					fv = v.A[i]
				} else {
					fv = x.Val("fld."+strconv.Itoa(i), u.Field(i).Type(), v)
				}
				s.store(base, path+"."+strconv.Itoa(i), fv, u.Field(i).Type())
			}
			return
		case *types.Array:
			arr := addr{base: base, path: path}.term()
			r := &Reg{elem: u.Elem(), n: I64(u.Len())}
			switch {
			case v.Op == OStruct:
				r.val = v
				r.ver = v
			case v.Op == OApp && v.S == "zeroarr":
				r.zero = true
				r.ver = v
			default:
				r.raw = v
				r.ver = v
			}
			s.regs[arr] = r
			return
		}
	}
	s.cells[cellKey{base, path}] = v
}

// Ghost state.
func (s *State) Ghost(base *Term, name string) *Term { return s.cells[cellKey{base, "!" + name}] }
func (s *State) SetGhost(base *Term, name string, v *Term) {
	if v == nil {
		delete(s.cells, cellKey{base, "!" + name})
		return
	}
	s.cells[cellKey{base, "!" + name}] = v
}

// Ghosts calls fn for all ghost cells of a kind.
func (s *State) Ghosts(name string, fn func(base, v *Term)) {
	var ks []cellKey
	for k := range s.cells {
		if k.path == "!"+name {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].base.ID < ks[j].base.ID })
	for _, k := range ks {
		fn(k.base, s.cells[k])
	}
}

// ---------------------------------------------------------------- regions

const (
	wElem = iota
	wInt
	wFill
	wCopy
	wDev
	wOpaque
	wComp // elements given by a term in their position
)

// compAt stands for the position of an element in the term of a wComp write,
// compVer for the same in versions.
var (
	compAt  = Sym("at", 64, types.Typ[types.Int])
	compVer = Sym("pos", 64, types.Typ[types.Int])
)

// at is the element at a position of a wComp write.
func (w *Write) at(off *Term) *Term { return Subst(w.val, map[*Term]*Term{compAt: off}) }

func (w *Write) factsAt(off *Term) []*Term {
	var r []*Term
	for _, f := range w.facts {
		r = append(r, Subst(f, map[*Term]*Term{compAt: off}))
	}
	return r
}

type Write struct {
	prev   *Write
	kind   byte
	off, n *Term
	val    *Term
	endian string
	src    *Reg
	srcOff *Term
	facts  []*Term // about an element of a wComp write
}

// Summary describes the elements of a region of unknown length: every element
// is an instance of Tmpl for some values of the holes satisfying Facts.
type Summary struct {
	Tmpl  *Term
	Holes []*Term
	Facts []*Term
}

func (s *Summary) term() *Term {
	if s == nil {
		return Str("nosum")
	}
	return App("sum", 0, append([]*Term{s.Tmpl}, s.Facts...)...)
}

// Reg is the content of an array.
type Reg struct {
	elem types.Type
	n    *Term // length of the array if known
	zero bool
	val  *Term // OStruct
	raw  *Term
	sum  *Summary
	w    *Write
	nw   int
	ver  *Term
}

func (s *State) Reg(arr *Term, elem types.Type) *Reg {
	if r, ok := s.regs[arr]; ok {
		if r.elem == nil && elem != nil {
			c := *r
			c.elem = elem
			r = &c
			s.regs[arr] = r
		}
		return r
	}
	a := split(arr)
	r := &Reg{elem: elem}
	if arr.Op == OApp && arr.S == "inner" {
		// an array inside of an element
		if elem != nil {
			b := split(arr.A[0])
			outer := addr{base: b.base, path: b.path}.term()
			if or := s.regs[outer]; or != nil && or.elem != nil {
				v := s.ReadElem(outer, b.idx, or.elem)
				if q := project(v, b.sub); q != nil && q.Op == OStruct {
					r.val = q
					r.ver = q
					return r
				}
			}
		}
		r.raw = arr
		r.ver = arr
		return r
	}
	if a.idx == nil && s.zeroed(a.base) {
		r.zero = true
		r.ver = App("zeroreg", 0)
	} else {
		r.raw = arr
		r.ver = arr
	}
	s.regs[arr] = r
	return r
}

func (s *State) Write(arr *Term, w Write) {
	r := s.Reg(arr, nil)
	s.regs[arr] = r.write(s, w)
}

func (r *Reg) write(s *State, w Write) *Reg {
	c := *r
	// join adjacent constant fills
	if w.kind == wElem && w.val.IsConst() {
		w.kind = wFill
	}
	if w.kind == wFill && c.w != nil && c.w.kind == wFill && c.w.val == w.val {
		p := c.w
		if Add(p.off, p.n) == w.off {
			w.off, w.n = p.off, Add(p.n, w.n)
			c.w = p.prev
			c.nw--
			c.ver = prevVer(r)
		} else if Add(w.off, w.n) == p.off {
			w.n = Add(p.n, w.n)
			c.w = p.prev
			c.nw--
			c.ver = prevVer(r)
		}
	}
	// a write that replaces the previous one completely
	for c.w != nil && c.w.off == w.off && c.w.n == w.n {
		c.w = c.w.prev
		c.nw--
		c.ver = c.baseVer()
		for _, q := range c.writes() {
			c.ver = q.verTerm(c.ver)
		}
	}
	w.prev = c.w
	nw := w
	c.w = &nw
	c.nw++
	c.ver = nw.verTerm(c.ver)
	return &c
}

func (r *Reg) baseVer() *Term {
	switch {
	case r.sum != nil:
		return App("sumreg", 0, r.raw, r.sum.term())
	case r.val != nil:
		return r.val
	case r.zero:
		return App("zeroreg", 0)
	}
	return r.raw
}

// ver0 stands for the content below all writes.
func (r *Reg) ver0() *Term { return r.baseVer() }

func (r *Reg) writes() []*Write {
	var ws []*Write
	for w := r.w; w != nil; w = w.prev {
		ws = append(ws, w)
	}
	for i, j := 0, len(ws)-1; i < j; i, j = i+1, j-1 {
		ws[i], ws[j] = ws[j], ws[i]
	}
	return ws
}

func prevVer(r *Reg) *Term {
	v := r.baseVer()
	ws := r.writes()
	for _, w := range ws[:len(ws)-1] {
		v = w.verTerm(v)
	}
	return v
}

func (w *Write) verTerm(prev *Term) *Term {
	v := w.val
	if v == nil {
		v = Str("-")
	}
	if w.kind == wComp {
		v = w.at(compVer)
		if len(w.facts) > 0 {
			v = App("with", 0, append([]*Term{v}, w.factsAt(compVer)...)...)
		}
	}
	so := w.srcOff
	if so == nil {
		so = Str("-")
	}
	sv := Str("-")
	if w.src != nil {
		sv = w.src.ver
	}
	return App("w"+strconv.Itoa(int(w.kind))+w.endian, 0, prev, w.off, w.n, v, sv, so)
}

// position of [off,off+n) relative to a write: 1 inside, -1 outside, 0 unknown
func (s *State) within(off *Term, n int64, w *Write) int {
	d := Sub(off, w.off)
	if d.Op == OInt && w.n.Op == OInt {
		v, l := d.SVal(), w.n.SVal()
		if v >= 0 && v+n <= l {
			return 1
		}
		if v+n <= 0 || v >= l {
			return -1
		}
		return 0
	}
	f := s.Facts
	// off+n <= w.off or off >= w.off+w.n
	if f.Holds(Le(true, AddK(off, n), w.off)) > 0 || f.Holds(Le(true, Add(w.off, w.n), off)) > 0 {
		return -1
	}
	if f.Holds(Le(true, w.off, off)) > 0 && f.Holds(Le(true, AddK(off, n), Add(w.off, w.n))) > 0 {
		return 1
	}
	return 0
}

// ReadElem reads the element at a position of an array.
func (s *State) ReadElem(arr, off *Term, typ types.Type) *Term {
	r := s.Reg(arr, typ)
	return s.readReg(r, off, typ)
}

func (s *State) readReg(r *Reg, off *Term, typ types.Type) *Term {
	x := s.x
	for w := r.w; w != nil; w = w.prev {
		switch s.within(off, 1, w) {
		case -1:
			continue
		case 0:
			return x.Val("rdu", typ, r.ver, off)
		}
		switch w.kind {
		case wElem, wFill:
			return w.val
		case wComp:
			if w.val == compPending {
				return x.Val("rdu", typ, r.ver, off)
			}
			for _, f := range w.factsAt(off) {
				s.Facts = s.Facts.Add(f)
			}
			return w.at(off)
		case wInt:
			d := Sub(off, w.off)
			if d.Op != OInt {
				return x.Val("rdu", typ, r.ver, off)
			}
			k := d.K
			if w.endian == "BE" {
				k = uint64(w.val.W/8) - 1 - k
			}
			return Trunc(8, DivU(w.val, Int(w.val.W, uint64(1)<<(8*k))))
		case wCopy:
			return s.readReg(w.src, Add(w.srcOff, Sub(off, w.off)), typ)
		case wDev:
			return App("devbyte", 8, w.val, Add(w.srcOff, Sub(off, w.off)))
		default:
			return x.Val("rdu", typ, r.ver, off)
		}
	}
	switch {
	case r.sum != nil:
		m := map[*Term]*Term{}
		for _, h := range r.sum.Holes {
			n := App("inst:"+h.S, h.W, r.ver0(), off, h)
			n.T = h.T
			m[h] = n
		}
		v := Subst(r.sum.Tmpl, m)
		for _, f := range r.sum.Facts {
			s.Facts = s.Facts.Add(Subst(f, m))
		}
		return v
	case r.val != nil:
		if off.Op == OInt && int(off.K) < len(r.val.A) {
			return r.val.A[off.K]
		}
		return x.Val("rdu", typ, r.ver, off)
	case r.zero:
		return x.Zero(typ)
	}
	return x.rawRead(r.raw, off, typ)
}

func (x *Exec) rawRead(raw, off *Term, typ types.Type) *Term {
	if w, _ := width(typ); w == 8 {
		return rawByte(raw, off)
	}
	return x.Val("elem", typ, raw, off)
}

func rawByte(raw, off *Term) *Term {
	if raw.Op == OApp && raw.S == "bytesof" && raw.A[0].Op == OStr && off.Op == OInt && int(off.K) < len(raw.A[0].S) {
		return Int(8, uint64(raw.A[0].S[off.K]))
	}
	return App("rd", 8, raw, off, Str("LE"))
}

var byteType = types.Typ[types.Uint8]

// ReadInt reads n bytes as a number.
func (s *State) ReadInt(arr, off *Term, n int, endian string) *Term {
	r := s.Reg(arr, byteType)
	return s.readInt(r, off, n, endian)
}

func (s *State) readInt(r *Reg, off *Term, n int, endian string) *Term {
	if n == 1 {
		return s.readReg(r, off, byteType)
	}
	w := r.w
	for ; w != nil; w = w.prev {
		in := s.within(off, int64(n), w)
		if in == -1 {
			continue
		}
		if in == 1 {
			if w.kind == wInt && w.off == off && w.val.W == 8*n {
				if w.endian == endian {
					return w.val
				}
			}
			if w.kind == wCopy {
				return s.readInt(w.src, Add(w.srcOff, Sub(off, w.off)), n, endian)
			}
			if w.kind == wFill && w.val.K == 0 {
				return Int(8*n, 0)
			}
			if w.kind == wOpaque || w.kind == wDev {
				return App("rdu", 8*n, r.ver, off, Str(endian))
			}
		}
		break
	}
	if w == nil {
		if r.raw != nil && r.sum == nil {
			return App("rd", 8*n, r.raw, off, Str(endian))
		}
		if r.zero {
			return Int(8*n, 0)
		}
	}
	// byte by byte
	v := Int(8*n, 0)
	for i := 0; i < n; i++ {
		b := s.readReg(r, AddK(off, int64(i)), byteType)
		k := i
		if endian == "BE" {
			k = n - 1 - i
		}
		v = Or(v, Shl(ZExt(8*n, b), Int(8*n, uint64(8*k))))
	}
	return v
}

// Seg describes the origin of a range of bytes.
type Seg struct {
	Kind string // zero, dev, str, raw, reg, opaque, const
	N    *Term
	Src  *Term // device, string or content term
	Off  *Term
}

// Segments returns the origin of the bytes [off,off+n) of an array.
func (s *State) Segments(arr, off, n *Term) []Seg {
	r := s.Reg(arr, byteType)
	return s.segs(r, off, n)
}

func (s *State) segs(r *Reg, off, n *Term) []Seg {
	f := s.Facts
	if f.Holds(Eq(n, I64(0))) > 0 {
		return nil
	}
	for w := r.w; w != nil; w = w.prev {
		end := Add(off, n)
		wend := Add(w.off, w.n)
		if f.Holds(Le(true, end, w.off)) > 0 || f.Holds(Le(true, wend, off)) > 0 || f.Holds(Eq(w.n, I64(0))) > 0 {
			continue
		}
		cut := *r
		cut.w = w.prev
		cut.ver = App("cut", 0, r.ver, w.off)
		var out []Seg
		if w.off != off && f.Holds(Lt(true, off, w.off)) > 0 {
			out = append(out, s.segs(&cut, off, Sub(w.off, off))...)
			off, n = w.off, Sub(end, w.off)
		} else if w.off != off && f.Holds(Le(true, w.off, off)) <= 0 {
			return []Seg{{Kind: "opaque", N: n, Src: r.ver, Off: off}}
		}
		rest := (*Term)(nil)
		m := n
		if end != wend && f.Holds(Lt(true, wend, end)) > 0 {
			rest = Sub(end, wend)
			m = Sub(wend, off)
		} else if end != wend && f.Holds(Le(true, end, wend)) <= 0 {
			return append(out, Seg{Kind: "opaque", N: n, Src: r.ver, Off: off})
		}
		d := Sub(off, w.off)
		switch w.kind {
		case wFill:
			k := "const"
			if w.val.K == 0 {
				k = "zero"
			}
			out = append(out, Seg{Kind: k, N: m, Src: w.val})
		case wCopy:
			out = append(out, s.segs(w.src, Add(w.srcOff, d), m)...)
		case wDev:
			out = append(out, Seg{Kind: "dev", N: m, Src: w.val, Off: Add(w.srcOff, d)})
		case wInt:
			out = append(out, Seg{Kind: "int" + w.endian, N: m, Src: w.val, Off: d})
		case wElem:
			out = append(out, Seg{Kind: "elem", N: m, Src: w.val, Off: d})
		default:
			out = append(out, Seg{Kind: "opaque", N: m, Src: r.ver, Off: off})
		}
		if rest != nil {
			out = append(out, s.segs(&cut, wend, rest)...)
		}
		return out
	}
	switch {
	case r.sum != nil:
		return []Seg{{Kind: "opaque", N: n, Src: r.ver, Off: off}}
	case r.zero:
		return []Seg{{Kind: "zero", N: n}}
	case r.val != nil:
		return []Seg{{Kind: "val", N: n, Src: r.val, Off: off}}
	case r.raw.Op == OApp && r.raw.S == "bytesof":
		return []Seg{{Kind: "str", N: n, Src: r.raw.A[0], Off: off}}
	}
	return []Seg{{Kind: "raw", N: n, Src: r.raw, Off: off}}
}

// Content names the bytes [off,off+n) of an array by one content term, from
// which reads can be made, and the offset in it.
func (s *State) Content(arr, off, n *Term) (*Term, *Term) {
	r := s.Reg(arr, byteType)
	for depth := 0; depth < 10; depth++ {
		if r.w == nil {
			if r.raw != nil && r.sum == nil {
				return r.raw, off
			}
			return r.ver, off
		}
		w := r.w
		d := s.Facts
		if w.kind == wCopy && (w.off == off && w.n == n || d.Holds(Le(true, w.off, off)) > 0 && d.Holds(Le(true, Add(off, n), Add(w.off, w.n))) > 0) {
			off = Add(w.srcOff, Sub(off, w.off))
			r = w.src
			continue
		}
		break
	}
	return r.ver, off
}

// StrOf makes the string holding the bytes of a slice.
func (s *State) StrOf(sl *Term) *Term {
	if s.Facts.Holds(Eq(sl.A[2], I64(0))) > 0 {
		return Str("")
	}
	c, off := s.Content(sl.A[0], sl.A[1], sl.A[2])
	// whole known string again?
	if c.Op == OApp && c.S == "bytesof" && off == I64(0) && StrLen(c.A[0]) == sl.A[2] {
		return c.A[0]
	}
	if sl.A[2].Op == OInt && sl.A[2].K <= 256 {
		// constant content
		b := make([]byte, sl.A[2].K)
		ok := true
		for i := range b {
			v := s.ReadElem(sl.A[0], AddK(sl.A[1], int64(i)), byteType)
			if v.Op != OInt {
				ok = false
				break
			}
			b[i] = byte(v.K)
		}
		if ok {
			return Str(string(b))
		}
	}
	return App("strb", 0, c, off, sl.A[2])
}

// StrLen is the length of a string.
func StrLen(t *Term) *Term {
	switch {
	case t.Op == OStr:
		return I64(int64(len(t.S)))
	case t.Op == OApp && t.S == "strb":
		return t.A[2]
	case t.Op == OApp && t.S == "cat":
		return Add(StrLen(t.A[0]), StrLen(t.A[1]))
	}
	return App("len", 64, t)
}

// strContent gives a content term of a string.
func strContent(t *Term) (*Term, *Term) {
	if t.Op == OApp && t.S == "strb" {
		return t.A[0], t.A[1]
	}
	return App("bytesof", 0, t), I64(0)
}

func StrByte(t, i *Term) *Term {
	c, off := strContent(t)
	return rawByte(c, Add(off, i))
}

// BytesOf makes a new array holding a string.
func (s *State) BytesOf(str *Term, obj *Term) *Term {
	c, off := strContent(str)
	l := StrLen(str)
	r := &Reg{elem: byteType, raw: c, ver: c}
	if off != I64(0) {
		base := r
		r = &Reg{elem: byteType, zero: true, ver: App("zeroreg", 0)}
		r = r.write(s, Write{kind: wCopy, off: I64(0), n: l, src: base, srcOff: off})
	}
	s.regs[obj] = r
	return SliceV(obj, I64(0), l, l, Bool(false))
}

// Havoc forgets the content of an array.
func (s *State) HavocReg(arr *Term) {
	r := s.Reg(arr, nil)
	v := Sym("havoc", 0, nil)
	s.regs[arr] = &Reg{elem: r.elem, n: r.n, raw: v, ver: v}
}

// ---------------------------------------------------------------- maps

type mapUpd struct {
	prev *mapUpd
	key  *Term
	val  *Term // nil: deleted
}

// MapC is the content of a map.
type MapC struct {
	empty bool     // base content is empty
	base  *Term    // base content otherwise
	sum   *Summary // (key,value) pairs of the base content
	upd   *mapUpd
	n     int
	ver   *Term
}

func (s *State) Map(m *Term) *MapC {
	if c, ok := s.maps[m]; ok {
		return c
	}
	c := &MapC{base: m, ver: m}
	if m == Nil {
		c = &MapC{empty: true, base: m, ver: App("emptymap", 0)}
	}
	s.maps[m] = c
	return c
}

// MapVer is a name for the content of a map.
func (s *State) MapVer(m *Term) *Term {
	if c, ok := s.maps[m]; ok {
		return c.ver
	}
	return m
}

func (s *State) MapUpdate(m, k, v *Term) {
	c := *s.Map(m)
	c.upd = &mapUpd{c.upd, k, v}
	c.n++
	vv := v
	if vv == nil {
		vv = Str("deleted")
	}
	c.ver = App("mapupd", 0, c.ver, k, vv)
	s.maps[m] = &c
}

// MapLookup returns value and presence.
func (s *State) MapLookup(m, k *Term, vt types.Type) (v, ok *Term) {
	x := s.x
	c := s.Map(m)
	for u := c.upd; u != nil; u = u.prev {
		switch s.Facts.Holds(Eq(u.key, k)) {
		case 1:
			if u.val == nil {
				return x.Zero(vt), Bool(false)
			}
			return u.val, Bool(true)
		case 0:
			return x.Val("mapget", vt, c.ver, k), App("maphas", 0, c.ver, k)
		}
	}
	if c.empty {
		return x.Zero(vt), Bool(false)
	}
	return x.Val("mapget", vt, c.base, k), App("maphas", 0, c.base, k)
}

func (t *Term) Short() string {
	s := t.String()
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

var _ = fmt.Sprint

// StrChar is the byte at a constant position of a string, looked up in the
// writes that made its content.
func (s *State) StrChar(t, k *Term) *Term {
	switch {
	case t.Op == OStr:
		if k.Op == OInt && k.K < uint64(len(t.S)) {
			return Int(8, uint64(t.S[k.K]))
		}
		return nil
	case t.Op == OApp && t.S == "cat":
		n := StrLen(t.A[0])
		switch s.Facts.Holds(Lt(true, k, n)) {
		case 1:
			return s.StrChar(t.A[0], k)
		case -1:
			return s.StrChar(t.A[1], Sub(k, n))
		}
		return nil
	case t.Op == OApp && t.S == "strb":
		return s.verByte(t.A[0], Add(t.A[1], k))
	}
	return nil
}

// verByte reads a byte of a content version.
func (s *State) verByte(c, k *Term) *Term {
	for d := 0; d < 1000; d++ {
		if c.Op == OStruct {
			if k.Op == OInt && k.K < uint64(len(c.A)) {
				return c.A[k.K]
			}
			return nil
		}
		if c.Op != OApp || len(c.A) != 6 || len(c.S) < 2 || c.S[0] != 'w' {
			break
		}
		off, n := c.A[1], c.A[2]
		f := s.Facts
		if f.Holds(Lt(true, k, off)) > 0 || f.Holds(Le(true, Add(off, n), k)) > 0 {
			c = c.A[0]
			continue
		}
		if f.Holds(Le(true, off, k)) <= 0 || f.Holds(Lt(true, k, Add(off, n))) <= 0 {
			return nil
		}
		switch c.S[1] - '0' {
		case wElem:
			if n == I64(1) {
				return c.A[3]
			}
		case wFill:
			return c.A[3]
		case wCopy:
			return s.verByte(c.A[4], Add(c.A[5], Sub(k, off)))
		}
		return nil
	}
	if c.Op == OApp && c.S == "zeroreg" {
		return Int(8, 0)
	}
	return rawByte(c, k)
}

// Holding lists the objects whose known cells are exactly those of a value of a
// type.
func (s *State) Holding(typ types.Type) []*Term {
	want := map[string]bool{}
	var leaves func(t types.Type, path string)
	leaves = func(t types.Type, path string) {
		if u, ok := t.Underlying().(*types.Struct); ok && !s.x.Opaque(t) {
			for i := 0; i < u.NumFields(); i++ {
				leaves(u.Field(i).Type(), path+"."+strconv.Itoa(i))
			}
			return
		}
		want[path] = true
	}
	leaves(typ, "")
	n := map[*Term]int{}
	for k := range s.cells {
		switch {
		case strings.HasPrefix(k.path, "!"):
		case want[k.path]:
			n[k.base]++
		default:
			n[k.base] = -1 << 20
		}
	}
	var r []*Term
	for b, k := range n {
		if k == len(want) {
			r = append(r, b)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// SplitAddr takes an address apart: the object, the fields, and whether it is
// that of an element.
func SplitAddr(p *Term) (base *Term, path string, elem bool) {
	a := split(p)
	return a.base, a.path, a.idx != nil
}

// GlobalName is the name of a package variable, given its address.
func GlobalName(base *Term) string {
	if base != nil && base.Op == OObj && strings.HasPrefix(base.S, "global:") {
		return strings.TrimPrefix(base.S, "global:")
	}
	return ""
}
