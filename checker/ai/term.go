// Package ai is a path-partitioned abstract interpreter for Go SSA.
//
// Values are hash-consed terms. Integer terms are kept as linear combinations
// of atoms modulo 2^w, so that syntactically different but equal arithmetic is
// recognised as equal.
package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OInt    Op = iota // integer constant K of width W
	OLin              // K + sum Co[i]*A[i] (mod 2^W)
	OSym              // fresh symbol
	OApp              // application of an uninterpreted or pure function S to A
	OMul              // product of two non-constant terms
	ODivU             // unsigned quotient
	ODivS             // signed (truncated) quotient
	ORemU             // unsigned remainder
	ORemS             // signed remainder
	OAnd              // bitwise
	OOr               //
	OXor              //
	OShl              // variable shift
	OShrU             //
	OShrS             //
	OZExt             // zero extension of A[0] to W bits
	OSExt             // sign extension of A[0] to W bits
	OTrunc            // truncation of A[0] to W bits
	OBool             // boolean constant K
	ONot              //
	OEq               //
	OLtU              //
	OLtS              //
	OStr              // string constant S
	ONil              // nil (pointer, interface, map, func, chan)
	OStruct           // struct or small array value, one argument per field
	OTuple            //
	OSlice            // A = region pointer, off, len, cap, isnil
	OPtr              // pointer to A[0] (object) at path S
	OObj              // object identity S
	OClo              // closure X=*ssa.Function, A = bindings
	OIface            // interface value of dynamic type S (X types.Type) holding A[0]
	OFloat            // float constant S
)

type Term struct {
	ID int
	Op Op
	W  int
	K  uint64
	Co []uint64
	S  string
	A  []*Term
	X  any
	// T is the static type of symbols (informational)
	T types.Type
}

type table struct {
	m    map[string]*Term
	next int
}

var tab = &table{m: map[string]*Term{}}

func key(op Op, w int, k uint64, s string, x any, co []uint64, a []*Term) string {
	var b []byte
	b = append(b, byte(op), byte(w))
	b = strconv.AppendUint(b, k, 36)
	b = append(b, '|')
	b = append(b, s...)
	b = append(b, '|')
	if x != nil {
		b = append(b, fmt.Sprintf("%p", x)...)
	}
	for i, t := range a {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(t.ID), 36)
		if co != nil {
			b = append(b, '*')
			b = strconv.AppendUint(b, co[i], 36)
		}
	}
	return string(b)
}

func mk(op Op, w int, k uint64, s string, x any, co []uint64, a ...*Term) *Term {
	var kx any = x
	if op == OIface {
		kx = nil // types are identified by S
	}
	kk := key(op, w, k, s, kx, co, a)
	if t, ok := tab.m[kk]; ok {
		return t
	}
	tab.next++
	t := &Term{ID: tab.next, Op: op, W: w, K: k, S: s, X: x, Co: co, A: a}
	tab.m[kk] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<uint(w) - 1
}

// Int returns an integer constant.
func Int(w int, v uint64) *Term { return mk(OInt, w, v&mask(w), "", nil, nil) }
func I64(v int64) *Term         { return Int(64, uint64(v)) }
func Bool(b bool) *Term {
	if b {
		return mk(OBool, 0, 1, "", nil, nil)
	}
	return mk(OBool, 0, 0, "", nil, nil)
}
func Str(s string) *Term { return mk(OStr, 0, 0, s, nil, nil) }

var Nil = mk(ONil, 0, 0, "", nil, nil)

var symCount int

// Sym returns a fresh symbol. w is 0 for non-integers.
func Sym(name string, w int, t types.Type) *Term {
	symCount++
	s := mk(OSym, w, uint64(symCount), name, nil, nil)
	s.T = t
	return s
}

// App returns an application of a pure function. w is 0 for non-integers.
func App(fn string, w int, args ...*Term) *Term { return mk(OApp, w, 0, fn, nil, nil, args...) }

func Struct(f ...*Term) *Term { return mk(OStruct, 0, 0, "", nil, nil, f...) }
func Tuple(f ...*Term) *Term  { return mk(OTuple, 0, 0, "", nil, nil, f...) }
func Obj(name string) *Term   { return mk(OObj, 0, 0, name, nil, nil) }
func Ptr(obj *Term, path string) *Term {
	return mk(OPtr, 0, 0, path, nil, nil, obj)
}
func SliceV(region, off, l, c, isnil *Term) *Term {
	return mk(OSlice, 0, 0, "", nil, nil, region, off, l, c, isnil)
}
func Iface(t types.Type, v *Term) *Term {
	return mk(OIface, 0, 0, types.TypeString(t, nil), t, nil, v)
}

func (t *Term) IsConst() bool { return t.Op == OInt || t.Op == OBool || t.Op == OStr }
func (t *Term) True() bool    { return t.Op == OBool && t.K == 1 }
func (t *Term) False() bool   { return t.Op == OBool && t.K == 0 }

// Signed value of an OInt.
func (t *Term) SVal() int64 { return sval(t.K, t.W) }
func sval(k uint64, w int) int64 {
	if w < 64 && k>>(uint(w)-1) != 0 {
		return int64(k | ^mask(w))
	}
	return int64(k)
}

// lin decomposes an integer term.
func lin(t *Term) (k uint64, co []uint64, a []*Term) {
	switch t.Op {
	case OInt:
		return t.K, nil, nil
	case OLin:
		return t.K, t.Co, t.A
	}
	return 0, []uint64{1}, []*Term{t}
}

// Lin returns K + sum co*a (mod 2^w) in normal form.
func Lin(w int, k uint64, co []uint64, a []*Term) *Term {
	m := mask(w)
	sum := map[*Term]uint64{}
	for i, t := range a {
		switch t.Op {
		case OInt:
			k += co[i] * t.K
		case OLin:
			k += co[i] * t.K
			for j, u := range t.A {
				sum[u] += co[i] * t.Co[j]
			}
		default:
			sum[t] += co[i]
		}
	}
	var atoms []*Term
	for t, c := range sum {
		if c&m != 0 {
			atoms = append(atoms, t)
		}
	}
	if len(atoms) == 0 {
		return Int(w, k)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	cs := make([]uint64, len(atoms))
	for i, t := range atoms {
		cs[i] = sum[t] & m
	}
	if len(atoms) == 1 && cs[0] == 1 && k&m == 0 {
		return atoms[0]
	}
	return mk(OLin, w, k&m, "", nil, cs, atoms...)
}

func Add(a, b *Term) *Term { return Lin(a.W, 0, []uint64{1, 1}, []*Term{a, b}) }
func Sub(a, b *Term) *Term { return Lin(a.W, 0, []uint64{1, ^uint64(0)}, []*Term{a, b}) }
func Neg(a *Term) *Term    { return Lin(a.W, 0, []uint64{^uint64(0)}, []*Term{a}) }
func AddK(a *Term, k int64) *Term {
	return Lin(a.W, uint64(k), []uint64{1}, []*Term{a})
}

func Mul(a, b *Term) *Term {
	if a.Op == OInt {
		a, b = b, a
	}
	if b.Op == OInt {
		return Lin(a.W, 0, []uint64{b.K}, []*Term{a})
	}
	// Distribute linear combinations
	ka, ca, ta := lin(a)
	kb, cb, tb := lin(b)
	if len(ta)*len(tb) > 16 {
		return mk(OMul, a.W, 0, "", nil, nil, ordered(a, b)...)
	}
	var co []uint64
	var at []*Term
	for i, x := range ta {
		for j, y := range tb {
			co = append(co, ca[i]*cb[j])
			at = append(at, mk(OMul, a.W, 0, "", nil, nil, ordered(x, y)...))
		}
		if kb != 0 {
			co = append(co, ca[i]*kb)
			at = append(at, x)
		}
	}
	if ka != 0 {
		for j, y := range tb {
			co = append(co, ka*cb[j])
			at = append(at, y)
		}
	}
	return Lin(a.W, ka*kb, co, at)
}

func ordered(a, b *Term) []*Term {
	if a.ID > b.ID {
		return []*Term{b, a}
	}
	return []*Term{a, b}
}

func pow2(k uint64) (int, bool) {
	if k != 0 && k&(k-1) == 0 {
		n := 0
		for k > 1 {
			k >>= 1
			n++
		}
		return n, true
	}
	return 0, false
}

func DivU(a, b *Term) *Term {
	if b.Op == OInt {
		if b.K == 1 {
			return a
		}
		if a.Op == OInt && b.K != 0 {
			return Int(a.W, a.K/b.K)
		}
		if a.Op == ODivU && a.A[1].Op == OInt && b.K != 0 {
			p := a.A[1].K * b.K
			if p/b.K == a.A[1].K && p&mask(a.W) == p {
				return DivU(a.A[0], Int(a.W, p))
			}
			return Int(a.W, 0)
		}
		if a.Op == OZExt && b.K != 0 {
			if b.K > mask(a.A[0].W) {
				return Int(a.W, 0)
			}
			return ZExt(a.W, DivU(a.A[0], Int(a.A[0].W, b.K)))
		}
	}
	if a.Op == OInt && a.K == 0 {
		return a
	}
	return mk(ODivU, a.W, 0, "", nil, nil, a, b)
}

func RemU(a, b *Term) *Term {
	if b.Op == OInt && b.K != 0 {
		if a.Op == OInt {
			return Int(a.W, a.K%b.K)
		}
		if b.K == 1 {
			return Int(a.W, 0)
		}
		if a.Op == OZExt {
			if b.K > mask(a.A[0].W) {
				return a
			}
			return ZExt(a.W, RemU(a.A[0], Int(a.A[0].W, b.K)))
		}
		if a.Op == ORemU && a.A[1].Op == OInt && b.K%a.A[1].K == 0 {
			return a
		}
		if a.Op == OLin {
			if _, ok := pow2(b.K); ok { // reduce coefficients
				co := make([]uint64, len(a.Co))
				ch := a.K%b.K != a.K
				for i, c := range a.Co {
					co[i] = c & (b.K - 1)
					ch = ch || co[i] != c
				}
				if ch {
					return RemU(Lin(a.W, a.K&(b.K-1), co, a.A), b)
				}
			}
		}
	}
	return mk(ORemU, a.W, 0, "", nil, nil, a, b)
}

func DivS(a, b *Term) *Term {
	if b.Op == OInt && b.K != 0 {
		if a.Op == OInt {
			return Int(a.W, uint64(a.SVal()/b.SVal()))
		}
		if b.K == 1 {
			return a
		}
	}
	return mk(ODivS, a.W, 0, "", nil, nil, a, b)
}

func RemS(a, b *Term) *Term {
	if b.Op == OInt && b.K != 0 && a.Op == OInt {
		return Int(a.W, uint64(a.SVal()%b.SVal()))
	}
	return mk(ORemS, a.W, 0, "", nil, nil, a, b)
}

func And(a, b *Term) *Term {
	if a.Op == OInt {
		a, b = b, a
	}
	if b.Op == OInt {
		if a.Op == OInt {
			return Int(a.W, a.K&b.K)
		}
		if b.K == 0 {
			return b
		}
		if b.K == mask(a.W) {
			return a
		}
		if n, ok := pow2(b.K + 1); ok {
			_ = n
			return RemU(a, Int(a.W, b.K+1))
		}
		if a.Op == OZExt {
			return ZExt(a.W, And(a.A[0], Int(a.A[0].W, b.K)))
		}
	}
	if a == b {
		return a
	}
	return mk(OAnd, a.W, 0, "", nil, nil, ordered(a, b)...)
}

// disjointBits reports whether a and b obviously have no common bits.
func bitRange(t *Term) (lo, hi int) { // possibly set bits in [lo,hi)
	switch t.Op {
	case OInt:
		if t.K == 0 {
			return 0, 0
		}
		lo = 0
		for t.K>>uint(lo)&1 == 0 {
			lo++
		}
		hi = 64
		for t.K>>uint(hi-1)&1 == 0 {
			hi--
		}
		return lo, hi
	case OZExt:
		return bitRange(t.A[0])
	case ORemU:
		if t.A[1].Op == OInt {
			if n, ok := pow2(t.A[1].K); ok {
				l, h := bitRange(t.A[0])
				if h > n {
					h = n
				}
				if l > h {
					l = h
				}
				return l, h
			}
		}
	case ODivU:
		if t.A[1].Op == OInt {
			if n, ok := pow2(t.A[1].K); ok {
				l, h := bitRange(t.A[0])
				l, h = l-n, h-n
				if l < 0 {
					l = 0
				}
				if h < 0 {
					h = 0
				}
				return l, h
			}
		}
	case OLin:
		if t.K == 0 && len(t.A) == 1 {
			if n, ok := pow2(t.Co[0]); ok {
				l, h := bitRange(t.A[0])
				if h+n <= t.W {
					return l + n, h + n
				}
				return l + n, t.W
			}
		}
		// sum of disjoint parts
		lo, hi = 64, 0
		if t.K != 0 {
			return 0, t.W
		}
		type r struct{ l, h int }
		var rs []r
		for i, a := range t.A {
			n, ok := pow2(t.Co[i])
			if !ok {
				return 0, t.W
			}
			l, h := bitRange(a)
			l, h = l+n, h+n
			if h > t.W {
				return 0, t.W
			}
			for _, o := range rs {
				if l < o.h && o.l < h {
					return 0, t.W
				}
			}
			rs = append(rs, r{l, h})
			if l < lo {
				lo = l
			}
			if h > hi {
				hi = h
			}
		}
		return lo, hi
	}
	return 0, t.W
}

func Or(a, b *Term) *Term {
	if a.Op == OInt && b.Op == OInt {
		return Int(a.W, a.K|b.K)
	}
	if a.Op == OInt && a.K == 0 {
		return b
	}
	if b.Op == OInt && b.K == 0 {
		return a
	}
	if a == b {
		return a
	}
	al, ah := bitRange(a)
	bl, bh := bitRange(b)
	if ah <= bl || bh <= al {
		return compose(Add(a, b))
	}
	return mk(OOr, a.W, 0, "", nil, nil, ordered(a, b)...)
}

// compose recognises a value put together from consecutive bytes of memory.
func compose(t *Term) *Term {
	if t.Op != OLin || t.K != 0 {
		return t
	}
	n := len(t.A)
	if n*8 > t.W || (n != 2 && n != 4 && n != 8) {
		return t
	}
	bytes := make([]*Term, n)
	for i, a := range t.A {
		s, ok := pow2(t.Co[i])
		if !ok || s%8 != 0 || s/8 >= n {
			return t
		}
		if a.Op == OZExt {
			a = a.A[0]
		}
		if a.W != 8 || a.Op != OApp || a.S != "rd" || bytes[s/8] != nil {
			return t
		}
		bytes[s/8] = a
	}
	try := func(end string, at func(i int) *Term) *Term {
		b0 := at(0)
		for i := 0; i < n; i++ {
			b := at(i)
			if b.A[0] != b0.A[0] || Sub(b.A[1], b0.A[1]) != Int(64, uint64(i)) {
				return nil
			}
		}
		r := App("rd", 8*n, b0.A[0], b0.A[1], Str(end))
		if 8*n < t.W {
			return ZExt(t.W, r)
		}
		return r
	}
	if r := try("LE", func(i int) *Term { return bytes[i] }); r != nil {
		return r
	}
	if r := try("BE", func(i int) *Term { return bytes[n-1-i] }); r != nil {
		return r
	}
	return t
}

func Xor(a, b *Term) *Term {
	if a.Op == OInt && b.Op == OInt {
		return Int(a.W, a.K^b.K)
	}
	if a == b {
		return Int(a.W, 0)
	}
	if a.Op == OInt {
		a, b = b, a
	}
	if b.Op == OInt {
		if b.K == 0 {
			return a
		}
		if b.K == mask(a.W) { // ^a == -a-1
			return Lin(a.W, ^uint64(0), []uint64{^uint64(0)}, []*Term{a})
		}
	}
	return mk(OXor, a.W, 0, "", nil, nil, ordered(a, b)...)
}

func Shl(a, n *Term) *Term {
	if n.Op == OInt {
		if n.K >= uint64(a.W) {
			return Int(a.W, 0)
		}
		return Mul(a, Int(a.W, uint64(1)<<n.K))
	}
	return mk(OShl, a.W, 0, "", nil, nil, a, n)
}

func ShrU(a, n *Term) *Term {
	if n.Op == OInt {
		if n.K >= uint64(a.W) {
			return Int(a.W, 0)
		}
		return DivU(a, Int(a.W, uint64(1)<<n.K))
	}
	return mk(OShrU, a.W, 0, "", nil, nil, a, n)
}

func ShrS(a, n *Term) *Term {
	if n.Op == OInt && a.Op == OInt {
		if n.K > 63 {
			n = Int(64, 63)
		}
		return Int(a.W, uint64(a.SVal()>>n.K))
	}
	return mk(OShrS, a.W, 0, "", nil, nil, a, n)
}

func ZExt(w int, a *Term) *Term {
	if a.W == w {
		return a
	}
	switch a.Op {
	case OInt:
		return Int(w, a.K)
	case OZExt:
		return ZExt(w, a.A[0])
	case ORemU, ODivU:
		if a.A[1].Op == OInt {
			x := ZExt(w, a.A[0])
			return mk(a.Op, w, 0, "", nil, nil, x, Int(w, a.A[1].K))
		}
	}
	return mk(OZExt, w, 0, "", nil, nil, a)
}

func SExt(w int, a *Term) *Term {
	if a.W == w {
		return a
	}
	switch a.Op {
	case OInt:
		return Int(w, uint64(a.SVal()))
	case OSExt:
		return SExt(w, a.A[0])
	case OZExt:
		return ZExt(w, a.A[0])
	}
	return mk(OSExt, w, 0, "", nil, nil, a)
}

func Trunc(w int, a *Term) *Term {
	if a.W == w {
		return a
	}
	switch a.Op {
	case OInt:
		return Int(w, a.K)
	case OTrunc:
		return Trunc(w, a.A[0])
	case OZExt:
		if a.A[0].W >= w {
			return Trunc(w, a.A[0])
		}
		return ZExt(w, a.A[0])
	case OSExt:
		if a.A[0].W >= w {
			return Trunc(w, a.A[0])
		}
		return SExt(w, a.A[0])
	case OLin:
		at := make([]*Term, len(a.A))
		for i, x := range a.A {
			at[i] = Trunc(w, x)
		}
		return Lin(w, a.K, a.Co, at)
	case ORemU:
		if a.A[1].Op == OInt {
			if n, ok := pow2(a.A[1].K); ok {
				if n >= w {
					return Trunc(w, a.A[0])
				}
				return RemU(Trunc(w, a.A[0]), Int(w, a.A[1].K))
			}
		}
	}
	return mk(OTrunc, w, 0, "", nil, nil, a)
}

func Not(a *Term) *Term {
	switch a.Op {
	case OBool:
		return Bool(a.K == 0)
	case ONot:
		return a.A[0]
	}
	return mk(ONot, 0, 0, "", nil, nil, a)
}

// NonNil reports whether a term is known not to be nil from its form alone.
func NonNil(t *Term) bool {
	switch t.Op {
	case OIface, OClo, OStr, OStruct:
		return true
	case OPtr:
		return t.A[0].Op == OObj || t.S != "" || NonNil(t.A[0])
	case OObj:
		return true
	case OApp:
		return strings.HasPrefix(t.S, "err:") || strings.HasPrefix(t.S, "nn:")
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if a.IsConst() && b.IsConst() {
		return Bool(false)
	}
	if b.Op == OSlice && (a.Op == ONil || a.Op == OSlice && a.A[0].Op == ONil) {
		a, b = b, a
	}
	if a.Op == OSlice && (b.Op == ONil || b.Op == OSlice && b.A[0].Op == ONil && b.A[4].True()) {
		return a.A[4]
	}
	if a.Op == ONil && NonNil(b) || b.Op == ONil && NonNil(a) {
		return Bool(false)
	}
	if a.Op == OIface && b.Op == OIface {
		if a.S != b.S {
			return Bool(false)
		}
		return Eq(a.A[0], b.A[0])
	}
	if a.Op == OPtr && b.Op == OPtr && a.A[0].Op == OObj && b.A[0].Op == OObj && len(a.A) == 1 && len(b.A) == 1 {
		return Bool(false) // different locations, since hash-consed
	}
	if a.W > 0 && b.W == a.W {
		// Normalise: difference equals zero
		d := Sub(a, b)
		if d.Op == OInt {
			return Bool(d.K == 0)
		}
		if a.Op == OZExt && b.Op == OZExt && a.A[0].W == b.A[0].W {
			return Eq(a.A[0], b.A[0])
		}
		if a.Op == OZExt && b.Op == OInt {
			if b.K > mask(a.A[0].W) {
				return Bool(false)
			}
			return Eq(a.A[0], Int(a.A[0].W, b.K))
		}
		if b.Op == OZExt && a.Op == OInt {
			return Eq(b, a)
		}
	}
	o := ordered(a, b)
	return mk(OEq, 0, 0, "", nil, nil, o...)
}

func Lt(signed bool, a, b *Term) *Term {
	if a == b {
		return Bool(false)
	}
	if a.Op == OInt && b.Op == OInt {
		if signed {
			return Bool(a.SVal() < b.SVal())
		}
		return Bool(a.K < b.K)
	}
	if !signed {
		if b.Op == OInt && b.K == 0 {
			return Bool(false)
		}
		if a.Op == OInt && a.K == mask(a.W) {
			return Bool(false)
		}
		return mk(OLtU, 0, 0, "", nil, nil, a, b)
	}
	return mk(OLtS, 0, 0, "", nil, nil, a, b)
}
func Le(signed bool, a, b *Term) *Term { return Not(Lt(signed, b, a)) }

// Children iterates over all subterms including t.
func (t *Term) Walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, c := range x.A {
			w(c)
		}
	}
	w(t)
}

// Contains reports whether t has s as a subterm.
func (t *Term) Contains(s *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x == s {
			found = true
		}
		return !found
	})
	return found
}

// Subst rebuilds t with symbols replaced.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.A) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	a := make([]*Term, len(t.A))
	for i, x := range t.A {
		a[i] = subst(x, m, memo)
		ch = ch || a[i] != x
	}
	r := t
	if ch {
		r = Rebuild(t, a)
	}
	memo[t] = r
	return r
}

// Rebuild makes a term like t with other arguments, in normal form.
func Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OLin:
		return Lin(t.W, t.K, t.Co, a)
	case OMul:
		return Mul(a[0], a[1])
	case ODivU:
		return DivU(a[0], a[1])
	case ODivS:
		return DivS(a[0], a[1])
	case ORemU:
		return RemU(a[0], a[1])
	case ORemS:
		return RemS(a[0], a[1])
	case OAnd:
		return And(a[0], a[1])
	case OOr:
		return Or(a[0], a[1])
	case OXor:
		return Xor(a[0], a[1])
	case OShl:
		return Shl(a[0], a[1])
	case OShrU:
		return ShrU(a[0], a[1])
	case OShrS:
		return ShrS(a[0], a[1])
	case OZExt:
		return ZExt(t.W, a[0])
	case OSExt:
		return SExt(t.W, a[0])
	case OTrunc:
		return Trunc(t.W, a[0])
	case ONot:
		return Not(a[0])
	case OEq:
		return Eq(a[0], a[1])
	case OLtU:
		return Lt(false, a[0], a[1])
	case OLtS:
		return Lt(true, a[0], a[1])
	case OApp:
		if t.S == "rd" && t.W == 8 {
			return rawByte(a[0], a[1])
		}
	}
	n := mk(t.Op, t.W, t.K, t.S, t.X, t.Co, a...)
	if n.T == nil {
		n.T = t.T
	}
	return n
}

var opName = map[Op]string{OMul: "*", ODivU: "/", ODivS: "/s", ORemU: "%", ORemS: "%s", OAnd: "&", OOr: "|", OXor: "^", OShl: "<<", OShrU: ">>", OShrS: ">>s", OEq: "==", OLtU: "<", OLtS: "<s"}

func (t *Term) String() string { return t.str(8) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	var as []string
	for _, a := range t.A {
		as = append(as, a.str(d-1))
	}
	switch t.Op {
	case OInt:
		if t.W == 64 && int64(t.K) < 0 && int64(t.K) > -1<<40 {
			return fmt.Sprint(int64(t.K))
		}
		return fmt.Sprint(t.K)
	case OLin:
		var p []string
		for i := range t.A {
			c := sval(t.Co[i], t.W)
			switch c {
			case 1:
				p = append(p, as[i])
			case -1:
				p = append(p, "-"+as[i])
			default:
				p = append(p, fmt.Sprintf("%d*%s", c, as[i]))
			}
		}
		if t.K != 0 {
			p = append(p, fmt.Sprint(sval(t.K, t.W)))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OSym:
		return fmt.Sprintf("%s#%d", t.S, t.K)
	case OApp:
		return t.S + "(" + strings.Join(as, ",") + ")"
	case OBool:
		return fmt.Sprint(t.K == 1)
	case OStr:
		return strconv.Quote(t.S)
	case OFloat:
		return t.S
	case ONil:
		return "nil"
	case ONot:
		return "!" + as[0]
	case OStruct:
		return "{" + strings.Join(as, ",") + "}"
	case OTuple:
		return "<" + strings.Join(as, ",") + ">"
	case OSlice:
		return "slice[" + as[0] + "@" + as[1] + " len " + as[2] + "]"
	case OPtr:
		return "&" + as[0] + t.S
	case OObj:
		return t.S
	case OClo:
		return "closure " + t.S
	case OIface:
		return "iface<" + t.S + ">(" + as[0] + ")"
	case OZExt, OSExt:
		return as[0]
	case OTrunc:
		return fmt.Sprintf("trunc%d(%s)", t.W, as[0])
	}
	if n, ok := opName[t.Op]; ok && len(as) == 2 {
		return "(" + as[0] + n + as[1] + ")"
	}
	return fmt.Sprintf("op%d(%s)", t.Op, strings.Join(as, ","))
}
