package ai

import (
	"math/bits"
	"sort"
	"strings"
)

// 128-bit integers for the constants of linear constraints. All operations
// report overflow, in which case the constraint is dropped (which is sound).

type i128 struct {
	hi int64
	lo uint64
}

func i64(v int64) i128 { return i128{v >> 63, uint64(v)} }
func u64(v uint64) i128 {
	return i128{0, v}
}
func (a i128) add(b i128) (i128, bool) {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi := a.hi + b.hi + int64(c)
	if (a.hi >= 0) == (b.hi >= 0) && (hi >= 0) != (a.hi >= 0) {
		return i128{}, false
	}
	return i128{hi, lo}, true
}
func (a i128) neg() i128 {
	lo, c := bits.Add64(^a.lo, 1, 0)
	return i128{^a.hi + int64(c), lo}
}
func (a i128) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}
func (a i128) cmp(b i128) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}
func (a i128) mul(c int64) (i128, bool) {
	neg := false
	x := a
	if x.hi < 0 {
		x = x.neg()
		neg = !neg
	}
	u := uint64(c)
	if c < 0 {
		u = uint64(-c)
		neg = !neg
	}
	h1, lo := bits.Mul64(x.lo, u)
	h2, l2 := bits.Mul64(uint64(x.hi), u)
	hi, cc := bits.Add64(h1, l2, 0)
	if h2 != 0 || cc != 0 || hi>>63 != 0 {
		return i128{}, false
	}
	r := i128{int64(hi), lo}
	if neg {
		r = r.neg()
	}
	return r, true
}

// floorDiv by a positive number
func (a i128) floorDiv(d int64) i128 {
	if a.hi < 0 {
		// -ceil(-a/d)
		x := a.neg()
		y, _ := x.add(i64(d - 1))
		return y.udiv(uint64(d)).neg()
	}
	return a.udiv(uint64(d))
}
func (a i128) udiv(d uint64) i128 {
	qh := uint64(a.hi) / d
	r := uint64(a.hi) % d
	ql, _ := bits.Div64(r, a.lo, d)
	return i128{int64(qh), ql}
}

// expr is a linear expression over the variables of a system.
type mono struct {
	v int
	c int64
}
type expr struct {
	k  i128
	ms []mono // sorted by v
}

func addE(a, b expr, ca, cb int64) (expr, bool) {
	ka, ok := a.k.mul(ca)
	if !ok {
		return expr{}, false
	}
	kb, ok := b.k.mul(cb)
	if !ok {
		return expr{}, false
	}
	k, ok := ka.add(kb)
	if !ok {
		return expr{}, false
	}
	r := expr{k: k}
	i, j := 0, 0
	mulc := func(x, y int64) (int64, bool) {
		z, ok := i64(x).mul(y)
		if !ok || z.cmp(i64(int64(z.lo))) != 0 || int64(z.lo) > 1<<62 || int64(z.lo) < -1<<62 {
			return 0, false
		}
		return int64(z.lo), true
	}
	for i < len(a.ms) || j < len(b.ms) {
		var v int
		var c int64
		switch {
		case j == len(b.ms) || i < len(a.ms) && a.ms[i].v < b.ms[j].v:
			v = a.ms[i].v
			if c, ok = mulc(a.ms[i].c, ca); !ok {
				return expr{}, false
			}
			i++
		case i == len(a.ms) || b.ms[j].v < a.ms[i].v:
			v = b.ms[j].v
			if c, ok = mulc(b.ms[j].c, cb); !ok {
				return expr{}, false
			}
			j++
		default:
			v = a.ms[i].v
			x, ok1 := mulc(a.ms[i].c, ca)
			y, ok2 := mulc(b.ms[j].c, cb)
			if !ok1 || !ok2 {
				return expr{}, false
			}
			c = x + y
			i++
			j++
		}
		if c != 0 {
			r.ms = append(r.ms, mono{v, c})
		}
	}
	return r, true
}

type row struct {
	e  expr
	eq bool
}

type vkey struct {
	t      *Term
	signed bool
}

// sys is a system of linear constraints over integer variables.
type sys struct {
	f     *Facts
	vars  map[vkey]int
	list  []vkey
	rows  []row
	depth int
	nlink map[int]bool
}

func minmax(w int, signed bool) (i128, i128) {
	if signed {
		lo := i64(-1 << (uint(w) - 1))
		hi := i64(int64(mask(w - 1)))
		return lo, hi
	}
	return i64(0), u64(mask(w))
}

// lenLike terms are lengths and capacities: non-negative and below 2^62.
func lenLike(t *Term) bool {
	return t.Op == OApp && t.W == 64 && (t.S == "len" || t.S == "cap" || t.S == "lensym" || strings.HasPrefix(t.S, "nat:"))
}

// intrinsic range of a term
func rng(t *Term, signed bool) (i128, i128) {
	lo, hi := minmax(t.W, signed)
	switch t.Op {
	case OZExt:
		l, h := minmax(t.A[0].W, false)
		if a, b := rng(t.A[0], false); true {
			l, h = a, b
		}
		return l, h
	case OSExt:
		if signed {
			return minmax(t.A[0].W, true)
		}
	case ORemU:
		if t.A[1].Op == OInt && t.A[1].K > 0 && (!signed || t.A[1].K <= mask(t.W-1)) {
			return i64(0), u64(t.A[1].K - 1)
		}
	case ODivU:
		if t.A[1].Op == OInt && t.A[1].K > 1 {
			return i64(0), u64(mask(t.W) / t.A[1].K)
		}
	case OAnd:
		for _, a := range t.A {
			if a.Op == OInt && (!signed || a.K <= mask(t.W-1)) {
				return i64(0), u64(a.K)
			}
		}
	case OApp:
		if lenLike(t) {
			return i64(0), i64(1 << 56) // the address space
		}
	case OShrU:
		if signed {
			return lo, hi
		}
	}
	return lo, hi
}

func (s *sys) newVar(t *Term, signed bool) int {
	// Terms that are never negative have one variable only.
	if signed {
		if lo, _ := rng(t, true); lo.sign() >= 0 {
			signed = false
		}
	}
	k := vkey{t, signed}
	if v, ok := s.vars[k]; ok {
		return v
	}
	v := len(s.list)
	s.vars[k] = v
	s.list = append(s.list, k)
	lo, hi := rng(t, signed)
	s.addGE(expr{lo.neg(), []mono{{v, 1}}})
	s.addGE(expr{hi, []mono{{v, -1}}})
	s.lemmas(t, v, signed)
	return v
}

func (s *sys) addGE(e expr) { s.rows = append(s.rows, row{e, false}) }
func (s *sys) addEQ(e expr) { s.rows = append(s.rows, row{e, true}) }

// addLe adds a <= b + k
func (s *sys) addLe(a, b expr, k int64) {
	if e, ok := addE(b, a, 1, -1); ok {
		if e.k, ok = e.k.add(i64(k)); ok {
			s.addGE(e)
		}
	}
}

func (s *sys) lemmas(t *Term, v int, signed bool) {
	if s.depth > 6 {
		return
	}
	s.depth++
	defer func() { s.depth-- }()
	me := expr{ms: []mono{{v, 1}}}
	switch t.Op {
	case OZExt:
		x := s.lin(t.A[0], false)
		s.addLe(me, x, 0)
		s.addLe(x, me, 0)
	case OSExt:
		if signed {
			x := s.lin(t.A[0], true)
			s.addLe(me, x, 0)
			s.addLe(x, me, 0)
		}
	case OTrunc:
		// unsigned truncation never grows; equal when in range
		if !signed {
			x := s.lin(t.A[0], false)
			s.addLe(me, x, 0)
			_, hi := minmax(t.W, false)
			if s.proveGE(neg(x), hi) {
				s.addLe(x, me, 0)
			}
		} else {
			x := s.lin(t.A[0], true)
			lo, hi := minmax(t.W, true)
			if s.proveGE(neg(x), hi) && s.proveGE(x, lo.neg()) {
				s.addLe(x, me, 0)
				s.addLe(me, x, 0)
			}
		}
	case ODivU:
		if signed {
			break
		}
		x := s.lin(t.A[0], false)
		s.addLe(me, x, 0)
		if t.A[1].Op == OInt && t.A[1].K > 0 && t.A[1].K < 1<<40 {
			c := int64(t.A[1].K)
			// c*q <= x <= c*q + c-1
			if e, ok := addE(x, me, 1, -c); ok {
				s.addGE(e)
			}
			if e, ok := addE(me, x, c, -1); ok {
				if e.k, ok = e.k.add(i64(c - 1)); ok {
					s.addGE(e)
				}
			}
		} else {
			// q*d <= x
			p := mk(OMul, t.W, 0, "", nil, nil, ordered(t, t.A[1])...)
			pv := s.newVar(p, false)
			s.addLe(expr{ms: []mono{{pv, 1}}}, x, 0)
		}
	case ORemU:
		if signed {
			break
		}
		x := s.lin(t.A[0], false)
		s.addLe(me, x, 0)
		d := t.A[1]
		q := DivU(t.A[0], d)
		if d.Op == OInt {
			if d.K > 0 && d.K < 1<<40 {
				qv := s.lin(q, false)
				// x = c*q + r
				if e, ok := addE(x, qv, 1, -int64(d.K)); ok {
					if e, ok = addE(e, me, 1, -1); ok {
						s.addEQ(e)
					}
				}
			}
		} else {
			dv := s.lin(d, false)
			if s.proveGE(dv, i64(-1)) {
				s.addLe(me, dv, -1)
				p := mk(OMul, t.W, 0, "", nil, nil, ordered(q, d)...)
				pv := s.lin(p, false)
				if e, ok := addE(x, pv, 1, -1); ok {
					if e, ok = addE(e, me, 1, -1); ok {
						s.addEQ(e)
					}
				}
			}
		}
	case OAnd:
		if !signed {
			for _, a := range t.A {
				s.addLe(me, s.lin(a, false), 0)
			}
		}
	case OOr:
		if !signed {
			var sum expr
			ok := true
			for _, a := range t.A {
				x := s.lin(a, false)
				s.addLe(x, me, 0)
				if ok {
					sum, ok = addE(sum, x, 1, 1)
				}
			}
			if ok {
				s.addLe(me, sum, 0)
			}
		}
	case ODivS:
		if signed && t.A[1].Op == OInt && t.A[1].SVal() > 0 {
			x := s.lin(t.A[0], true)
			if s.proveGE(x, i64(0)) {
				c := t.A[1].SVal()
				if e, ok := addE(x, me, 1, -c); ok {
					s.addGE(e)
				}
				if e, ok := addE(me, x, c, -1); ok {
					if e.k, ok = e.k.add(i64(c - 1)); ok {
						s.addGE(e)
					}
				}
				s.addGE(me)
			}
		}
	case ORemS:
		if signed && t.A[1].Op == OInt && t.A[1].SVal() > 0 {
			c := t.A[1].SVal()
			x := s.lin(t.A[0], true)
			s.addGE(expr{i64(c - 1), []mono{{v, -1}}})
			s.addGE(expr{i64(c - 1), []mono{{v, 1}}})
			if s.proveGE(x, i64(0)) {
				s.addGE(me)
				s.addLe(me, x, 0)
			}
		}
	case OMul:
		if signed {
			break
		}
		// x <= floor(d/b)-1  =>  x*b + b <= d
		for i := 0; i < 2; i++ {
			x, b := t.A[i], t.A[1-i]
			xe := s.lin(x, false)
			for _, k := range s.list {
				if k.t.Op == ODivU && k.t.A[1] == b && k.t != x {
					qe := s.lin(k.t, false)
					if e, ok := addE(qe, xe, 1, -1); ok && s.proveGE(e, i64(-1)) {
						de := s.lin(k.t.A[0], false)
						be := s.lin(b, false)
						if e, ok := addE(de, me, 1, -1); ok {
							if e, ok = addE(e, be, 1, -1); ok {
								s.addGE(e)
							}
						}
					}
				}
			}
		}
	}
}

func neg(e expr) expr { r, _ := addE(expr{}, e, 1, -1); return r }

// proveGE reports whether e + k >= 0 follows from the rows so far.
func (s *sys) proveGE(e expr, k i128) bool {
	n, ok := e.k.add(k)
	if !ok {
		return false
	}
	e.k = n
	// interval check first
	if lo, ok := s.lower(e); ok && lo.sign() >= 0 {
		return true
	}
	if s.depth > 3 {
		return false
	}
	return s.entailGE(e)
}

// lower computes a lower bound of e from the intrinsic ranges.
func (s *sys) lower(e expr) (i128, bool) {
	r := e.k
	for _, m := range e.ms {
		k := s.list[m.v]
		lo, hi := rng(k.t, k.signed)
		b := lo
		if m.c < 0 {
			b = hi
		}
		x, ok := b.mul(m.c)
		if !ok {
			return r, false
		}
		if r, ok = r.add(x); !ok {
			return r, false
		}
	}
	return r, true
}

// lin returns a linear expression for the value of t.
func (s *sys) lin(t *Term, signed bool) expr {
	if t.Op == OInt {
		if signed {
			return expr{k: i64(t.SVal())}
		}
		return expr{k: u64(t.K)}
	}
	if t.Op == OZExt {
		return s.lin(t.A[0], false)
	}
	if t.Op == OSExt && signed {
		return s.lin(t.A[0], true)
	}
	if t.Op == OLin && s.depth < 8 {
		s.depth++
		e, ok := s.exact(t, signed)
		if !ok {
			e, ok = s.rebase(t, signed)
		}
		if !ok {
			// the other reading, if both agree
			if e, ok = s.rebase(t, !signed); ok {
				lo, hi := minmax(t.W, signed)
				ok = s.proveGE(e, lo.neg()) && s.proveGE(neg(e), hi)
			}
		}
		s.depth--
		if ok {
			return e
		}
	}
	if !signed {
		// use the signed variable if there is one and it is not negative
		if lo, _ := rng(t, true); lo.sign() < 0 {
			if sv, ok := s.vars[vkey{t, true}]; ok {
				e := expr{ms: []mono{{sv, 1}}}
				if s.proveGE(e, i64(0)) {
					return e
				}
			}
		}
	} else if lo, _ := rng(t, true); lo.sign() < 0 {
		if uv, ok := s.vars[vkey{t, false}]; ok {
			if _, have := s.vars[vkey{t, true}]; !have {
				e := expr{ms: []mono{{uv, 1}}}
				_, hi := minmax(t.W, true)
				if s.proveGE(neg(e), hi) {
					return e
				}
			}
		}
	}
	return expr{ms: []mono{{s.newVar(t, signed), 1}}}
}

// wrap is a sum that may wrap around: v = sum - n*2^w for some n, or the two
// readings of a term.
type wrap struct {
	v    int
	e    expr
	from int
	to   int
	w    int
}

func two(w int) i128 {
	if w >= 64 {
		return i128{1 << uint(w-64), 0}
	}
	return i128{0, 1 << uint(w)}
}

// wraps lists the sums among the variables connected to a goal.
func (s *sys) wraps(rel map[int]bool) []wrap {
	var r []wrap
	for i := 0; i < len(s.list) && len(r) < 3; i++ {
		k := s.list[i]
		if !rel[i] || k.t.Op != OLin || len(k.t.A) > 4 {
			continue
		}
		e := expr{k: i64(sval(k.t.K, k.t.W))}
		ok := true
		for j, a := range k.t.A {
			if e, ok = addE(e, s.lin(a, k.signed), 1, sval(k.t.Co[j], k.t.W)); !ok {
				break
			}
		}
		if !ok || coef(e, i) != 0 {
			continue
		}
		lo, ok1 := s.lower(e)
		hi, ok2 := s.lower(neg(e))
		if !ok1 || !ok2 {
			continue
		}
		hi = hi.neg()
		mn, mx := minmax(k.t.W, k.signed)
		w := wrap{v: i, e: e, from: 9, to: -9, w: k.t.W}
		for n := -3; n <= 3; n++ {
			// lo - n*2^w <= mx and hi - n*2^w >= mn
			sh, _ := two(w.w).mul(int64(-n))
			l, _ := lo.add(sh)
			h, _ := hi.add(sh)
			if l.cmp(mx) <= 0 && h.cmp(mn) >= 0 {
				if n < w.from {
					w.from = n
				}
				w.to = n
			}
		}
		if w.from > w.to || w.from == -3 || w.to == 3 {
			continue
		}
		r = append(r, w)
	}
	return r
}

// proveSplit is proveGE with case distinctions for sums that may wrap around.
func (s *sys) proveSplit(e expr, k i128) bool {
	if s.proveGE(e, k) {
		return true
	}
	any := false
	for _, q := range s.list {
		any = any || q.t.Op == OLin
	}
	if !any {
		return false
	}
	n, ok := e.k.add(k)
	if !ok {
		return false
	}
	e.k = n
	g := neg(e)
	if g.k, ok = g.k.add(i64(-1)); !ok {
		return false
	}
	goal := row{g, false}
	_, rel := s.related(goal)
	ws := s.wraps(rel)
	if len(ws) == 0 {
		return false
	}
	rows := len(s.rows)
	defer func() { s.rows = s.rows[:rows:rows] }()
	var try func(j int) bool
	try = func(j int) bool {
		if j == len(ws) {
			return s.contradiction(goal)
		}
		w := ws[j]
		for n := w.from; n <= w.to; n++ {
			at := len(s.rows)
			sh, _ := two(w.w).mul(int64(-n))
			x := w.e
			if x.k, ok = x.k.add(sh); !ok {
				return false
			}
			if x, ok = addE(expr{ms: []mono{{w.v, 1}}}, x, 1, -1); !ok {
				return false
			}
			s.addEQ(x)
			good := j+1 < len(ws) && s.contradiction(goal) || try(j+1)
			s.rows = s.rows[:at:at]
			if !good {
				return false
			}
		}
		return true
	}
	return try(0)
}

// rebase expresses a sum that may wrap around by another sum of which the same
// is true: t = k + (t-k), if that stays within the range of the type.
func (s *sys) rebase(t *Term, signed bool) (expr, bool) {
	lo, hi := minmax(t.W, signed)
	for n, i := 0, 0; i < len(s.list) && n < 6; i++ {
		k := s.list[i]
		if k.t.Op != OLin || k.signed != signed || k.t == t || k.t.W != t.W {
			continue
		}
		d := Sub(t, k.t)
		if d.Op == OLin && len(d.A) >= len(t.A) {
			continue
		}
		n++
		for _, as := range []bool{signed, !signed} {
			if s.depth > 3 {
				continue
			}
			e, ok := addE(expr{ms: []mono{{i, 1}}}, s.lin(d, as), 1, 1)
			if ok && s.proveGE(e, lo.neg()) && s.proveGE(neg(e), hi) {
				return e, true
			}
		}
	}
	return expr{}, false
}

func (s *sys) exact(t *Term, signed bool) (expr, bool) {
	lo, hi := minmax(t.W, signed)
	// The atoms may be read as signed or unsigned numbers.
	for try := 0; try < 3; try++ {
		as := signed
		if try == 2 {
			as = !signed
		}
		var e expr
		if try == 1 && !signed {
			e.k = u64(t.K)
			if sval(t.K, t.W) >= 0 {
				continue
			}
		} else if try == 1 {
			continue
		} else {
			e.k = i64(sval(t.K, t.W))
		}
		ok := true
		for i, a := range t.A {
			x := s.lin(a, as)
			if e, ok = addE(e, x, 1, sval(t.Co[i], t.W)); !ok {
				break
			}
		}
		if !ok {
			continue
		}
		if s.proveGE(e, lo.neg()) && s.proveGE(neg(e), hi) {
			return e, true
		}
	}
	return expr{}, false
}

func normRow(r row) (row, int) { // -1 contradiction, 0 trivially true, 1 keep
	if len(r.e.ms) == 0 {
		if r.eq && r.e.k.sign() != 0 || r.e.k.sign() < 0 {
			return r, -1
		}
		return r, 0
	}
	g := int64(0)
	for _, m := range r.e.ms {
		c := m.c
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g > 1 {
		ms := make([]mono, len(r.e.ms))
		for i, m := range r.e.ms {
			ms[i] = mono{m.v, m.c / g}
		}
		k := r.e.k.floorDiv(g)
		if r.eq {
			if b, _ := k.mul(g); b.cmp(r.e.k) != 0 {
				return r, -1
			}
		}
		return row{expr{k, ms}, r.eq}, 1
	}
	return r, 1
}

var FMQueries, FMGiveUp int

// entailGE decides whether e >= 0 follows (Fourier-Motzkin elimination).
func (s *sys) entailGE(e expr) bool {
	// negation: -e-1 >= 0
	n := neg(e)
	var ok bool
	if n.k, ok = n.k.add(i64(-1)); !ok {
		return false
	}
	return s.contradiction(row{n, false})
}

func coef(e expr, v int) int64 {
	i := sort.Search(len(e.ms), func(i int) bool { return e.ms[i].v >= v })
	if i < len(e.ms) && e.ms[i].v == v {
		return e.ms[i].c
	}
	return 0
}

func (s *sys) contradiction(goal row) bool {
	FMQueries++
	used, _ := s.related(goal)
	rows := []row{goal}
	for i, r := range s.rows {
		if used[i] {
			rows = append(rows, r)
		}
	}
	return fm(rows)
}

// related finds the rows and variables connected to a goal.
func (s *sys) related(goal row) ([]bool, map[int]bool) {
	rel := map[int]bool{}
	for _, m := range goal.e.ms {
		rel[m.v] = true
	}
	used := make([]bool, len(s.rows))
	for ch := true; ch; {
		ch = false
		for i, r := range s.rows {
			if used[i] || len(r.e.ms) == 0 {
				continue
			}
			if len(r.e.ms) > 1 {
				hit := false
				for _, m := range r.e.ms {
					if rel[m.v] {
						hit = true
						break
					}
				}
				if !hit {
					continue
				}
			} else if !rel[r.e.ms[0].v] {
				continue
			}
			used[i] = true
			ch = true
			for _, m := range r.e.ms {
				rel[m.v] = true
			}
		}
	}
	return used, rel
}

func rowKey(r row) string {
	var b strings.Builder
	if r.eq {
		b.WriteByte('=')
	}
	for _, m := range r.e.ms {
		b.WriteString(itoa(int64(m.v)))
		b.WriteByte('*')
		b.WriteString(itoa(m.c))
		b.WriteByte(' ')
	}
	return b.String()
}

func itoa(v int64) string {
	var buf [24]byte
	i := len(buf)
	n := v < 0
	u := uint64(v)
	if n {
		u = -u
	}
	for {
		i--
		buf[i] = byte('0' + u%10)
		u /= 10
		if u == 0 {
			break
		}
	}
	if n {
		i--
		buf[i] = '-'
	}
	return string(buf[i:])
}

// fm reports whether the rows have no integer solution (incomplete).
func fm(rows []row) bool {
	reduce := func(in []row) ([]row, bool) {
		best := map[string]int{}
		var out []row
		for _, r := range in {
			r, st := normRow(r)
			if st < 0 {
				return nil, true
			}
			if st == 0 {
				continue
			}
			k := rowKey(r)
			if j, ok := best[k]; ok {
				if !r.eq && r.e.k.cmp(out[j].e.k) < 0 {
					out[j] = r
				} else if r.eq && r.e.k.cmp(out[j].e.k) != 0 {
					return nil, true
				}
				continue
			}
			best[k] = len(out)
			out = append(out, r)
		}
		return out, false
	}
	var bad bool
	if rows, bad = reduce(rows); bad {
		return true
	}
	for step := 0; step < 200; step++ {
		// substitute equalities with a unit coefficient
		sub := -1
		var sv int
		for i, r := range rows {
			if !r.eq {
				continue
			}
			for _, m := range r.e.ms {
				if m.c == 1 || m.c == -1 {
					sub, sv = i, m.v
					break
				}
			}
			if sub >= 0 {
				break
			}
		}
		if sub >= 0 {
			r := rows[sub]
			c := coef(r.e, sv)
			var out []row
			for i, o := range rows {
				if i == sub {
					continue
				}
				d := coef(o.e, sv)
				if d == 0 {
					out = append(out, o)
					continue
				}
				// o - (d/c) r
				if e, ok := addE(o.e, r.e, 1, -d*c); ok {
					out = append(out, row{e, o.eq})
				}
			}
			if rows, bad = reduce(out); bad {
				return true
			}
			continue
		}
		// choose variable with the fewest combinations
		type cnt struct{ p, n, e int }
		cs := map[int]*cnt{}
		for _, r := range rows {
			for _, m := range r.e.ms {
				c := cs[m.v]
				if c == nil {
					c = &cnt{}
					cs[m.v] = c
				}
				if r.eq {
					c.p++
					c.n++
				} else if m.c > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		if len(cs) == 0 {
			return false
		}
		bv, bc := -1, 1<<30
		for v, c := range cs {
			x := c.p*c.n - c.p - c.n
			if x < bc || x == bc && v < bv {
				bv, bc = v, x
			}
		}
		var pos, ng, out []row
		for _, r := range rows {
			c := coef(r.e, bv)
			switch {
			case c == 0:
				out = append(out, r)
			case r.eq:
				a := row{r.e, false}
				b := row{neg(r.e), false}
				if c < 0 {
					a, b = b, a
				}
				pos = append(pos, a)
				ng = append(ng, b)
			case c > 0:
				pos = append(pos, r)
			default:
				ng = append(ng, r)
			}
		}
		if len(out)+len(pos)*len(ng) > 600 {
			FMGiveUp++
			return false
		}
		for _, p := range pos {
			for _, q := range ng {
				if e, ok := addE(p.e, q.e, -coef(q.e, bv), coef(p.e, bv)); ok {
					out = append(out, row{e, false})
				}
			}
		}
		if rows, bad = reduce(out); bad {
			return true
		}
	}
	return false
}
