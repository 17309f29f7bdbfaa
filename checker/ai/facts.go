package ai

// Facts is a persistent list of boolean terms known to be true.
type Facts struct {
	prev  *Facts
	lit   *Term
	n     int
	cache map[*Term]int8
	bad   bool // contradictory
}

func (f *Facts) Each(fn func(*Term) bool) {
	for ; f != nil && f.lit != nil; f = f.prev {
		if !fn(f.lit) {
			return
		}
	}
}

func (f *Facts) Has(l *Term) bool {
	for ; f != nil && f.lit != nil; f = f.prev {
		if f.lit == l {
			return true
		}
	}
	return false
}

// Add returns the facts extended by a literal.
func (f *Facts) Add(l *Term) *Facts {
	if l.True() || f.Has(l) {
		return f
	}
	n := 0
	if f != nil {
		n = f.n
	}
	if l.Op == OApp && l.S == "and" {
		for _, a := range l.A {
			f = f.Add(a)
		}
		return f
	}
	return &Facts{prev: f, lit: l, n: n + 1}
}

// numeric atoms of a term (everything below linear combinations)
var atomCache = map[*Term][]*Term{}

func atoms(t *Term) []*Term {
	if a, ok := atomCache[t]; ok {
		return a
	}
	var r []*Term
	seen := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case OInt:
		case OLin, OZExt, OSExt, OTrunc, ONot, OEq, OLtU, OLtS:
			for _, a := range x.A {
				w(a)
			}
		case OMul, ODivU, ODivS, ORemU, ORemS, OAnd, OOr, OXor, OShl, OShrU, OShrS:
			r = append(r, x)
			for _, a := range x.A {
				w(a)
			}
		default:
			r = append(r, x)
		}
	}
	w(t)
	atomCache[t] = r
	return r
}

func numeric(l *Term) (cmp *Term, pos bool) {
	pos = true
	if l.Op == ONot {
		l, pos = l.A[0], false
	}
	switch l.Op {
	case OLtU, OLtS:
		return l, pos
	case OEq:
		if l.A[0].W > 0 {
			return l, pos
		}
	}
	return nil, false
}

// Holds decides a boolean term: 1 true, -1 false, 0 unknown.
func (f *Facts) Holds(l *Term) int {
	if l.True() {
		return 1
	}
	if l.False() {
		return -1
	}
	if l.Op == ONot {
		return -f.Holds(l.A[0])
	}
	if l.Op == OApp && l.S == "and" {
		r := 1
		for _, a := range l.A {
			switch f.Holds(a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	}
	if f == nil {
		f = emptyFacts
	}
	if v, ok := f.cache[l]; ok {
		return int(v)
	}
	r := f.holds(l)
	if f.cache == nil {
		f.cache = map[*Term]int8{}
	}
	f.cache[l] = int8(r)
	return r
}

var emptyFacts = &Facts{}

func (f *Facts) holds(l *Term) int {
	nl := Not(l)
	for g := f; g != nil && g.lit != nil; g = g.prev {
		if g.lit == l {
			return 1
		}
		if g.lit == nl {
			return -1
		}
	}
	if l.Op == OApp && l.S == "isnil" && f.Holds(Eq(App("len", 64, l.A[0]), I64(0))) < 0 {
		return -1
	}
	if l.Op == OEq && l.A[0].W == 0 {
		// constants and known equalities
		a, b := f.Norm(l.A[0]), f.Norm(l.A[1])
		if a != l.A[0] || b != l.A[1] {
			e := Eq(a, b)
			if e.True() {
				return 1
			}
			if e.False() {
				return -1
			}
			for g := f; g != nil && g.lit != nil; g = g.prev {
				if g.lit == e {
					return 1
				}
				if g.lit == Not(e) {
					return -1
				}
			}
		}
		if l.A[0].Op == OStruct && l.A[1].Op == OStruct && len(l.A[0].A) == len(l.A[1].A) {
			all := 1
			for i := range l.A[0].A {
				switch f.Holds(Eq(l.A[0].A[i], l.A[1].A[i])) {
				case -1:
					return -1
				case 0:
					all = 0
				}
			}
			return all
		}
		return 0
	}
	if c, _ := numeric(l); c != nil {
		s := f.build(l)
		switch c.Op {
		case OEq:
			// equal if ordered both ways in the same reading
			for _, sg := range []bool{false, true} {
				if s.le(c.A[0], c.A[1], sg) && s.le(c.A[1], c.A[0], sg) {
					return 1
				}
			}
			if s.lt(c.A[0], c.A[1]) || s.lt(c.A[1], c.A[0]) {
				return -1
			}
			return 0
		case OLtU, OLtS:
			sg := c.Op == OLtS
			a := s.lin(c.A[0], sg)
			b := s.lin(c.A[1], sg)
			if e, ok := addE(b, a, 1, -1); ok && s.proveSplit(e, i64(-1)) {
				return 1
			}
			if e, ok := addE(a, b, 1, -1); ok && s.proveSplit(e, i64(0)) {
				return -1
			}
		}
	}
	return 0
}

func (s *sys) le(a, b *Term, signed bool) bool {
	e, ok := addE(s.lin(b, signed), s.lin(a, signed), 1, -1)
	return ok && s.proveGE(e, i64(0))
}
func (s *sys) lt(a, b *Term) bool {
	e, ok := addE(s.lin(b, false), s.lin(a, false), 1, -1)
	if ok && s.proveGE(e, i64(-1)) {
		return true
	}
	e, ok = addE(s.lin(b, true), s.lin(a, true), 1, -1)
	return ok && s.proveGE(e, i64(-1))
}

// Norm replaces a non-numeric term by an equal constant, if one is known.
func (f *Facts) Norm(t *Term) *Term {
	for g := f; g != nil && g.lit != nil; g = g.prev {
		if g.lit.Op == OEq && g.lit.A[0].W == 0 {
			a, b := g.lit.A[0], g.lit.A[1]
			if a == t && (b.IsConst() || b.Op == ONil || b.ID < a.ID && !a.IsConst() && a.Op != ONil) {
				return b
			}
			if b == t && (a.IsConst() || a.Op == ONil || a.ID < b.ID && !b.IsConst() && b.Op != ONil) {
				return a
			}
		}
	}
	return t
}

var sysCache = map[*Facts]map[string]*sys{}

// build sets up the constraints relevant for a query.
func (f *Facts) build(q *Term) *sys {
	s := &sys{f: f, vars: map[vkey]int{}}
	rel := map[*Term]bool{}
	for _, a := range atoms(q) {
		rel[a] = true
	}
	var lits []*Term
	f.Each(func(l *Term) bool {
		if c, _ := numeric(l); c != nil {
			lits = append(lits, l)
		}
		return true
	})
	used := make([]bool, len(lits))
	var sel []int
	for ch := true; ch; {
		ch = false
		for i, l := range lits {
			if used[i] {
				continue
			}
			hit := false
			for _, a := range atoms(l) {
				if rel[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				sel = append(sel, i)
				for _, a := range atoms(l) {
					rel[a] = true
				}
			}
		}
	}
	// oldest first
	sortDesc(sel)
	var ne []*Term
	for round := 0; round < 2; round++ {
		if round == 1 {
			// translate again: more terms may be exact now
			if len(sel) > 40 {
				break
			}
		}
		for _, i := range sel {
			l := lits[i]
			c, pos := numeric(l)
			if c.Op == OEq {
				if !pos {
					if round == 0 {
						ne = append(ne, c)
					}
					continue
				}
				for _, sg := range []bool{false, true} {
					a, b := s.lin(c.A[0], sg), s.lin(c.A[1], sg)
					if e, ok := addE(a, b, 1, -1); ok {
						s.addEQ(e)
					}
				}
				continue
			}
			sg := c.Op == OLtS
			a, b := s.lin(c.A[0], sg), s.lin(c.A[1], sg)
			if pos {
				s.addLe(a, b, -1)
			} else {
				s.addLe(b, a, 0)
			}
		}
		s.dedup()
	}
	for r := 0; r < 2; r++ {
		for _, c := range ne {
			for _, sg := range []bool{false, true} {
				a, b := s.lin(c.A[0], sg), s.lin(c.A[1], sg)
				if e, ok := addE(b, a, 1, -1); ok && s.proveGE(e, i64(0)) {
					s.addLe(a, b, -1)
				} else if e, ok := addE(a, b, 1, -1); ok && s.proveGE(e, i64(0)) {
					s.addLe(b, a, -1)
				}
			}
		}
	}
	return s
}

func (s *sys) dedup() {
	seen := map[string]bool{}
	var out []row
	for _, r := range s.rows {
		k := rowKey(r) + "|" + itoa(r.e.k.hi) + "," + itoa(int64(r.e.k.lo))
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	s.rows = out
}

func sortDesc(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] > a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Feasible reports whether a literal can be added without contradiction.
func (f *Facts) Feasible(l *Term) bool { return f.Holds(l) >= 0 }

// Differ takes a fact that two values differ apart.
func Differ(l *Term) (a, b *Term, ok bool) {
	if l.Op == ONot && l.A[0].Op == OEq {
		return l.A[0].A[0], l.A[0].A[1], true
	}
	return nil, nil, false
}

// Less takes a comparison of integers apart: lo < hi, or lo <= hi.
func Less(l *Term) (lo, hi *Term, strict, ok bool) {
	switch {
	case l.Op == OLtU || l.Op == OLtS:
		return l.A[0], l.A[1], true, true
	case l.Op == ONot && (l.A[0].Op == OLtU || l.A[0].Op == OLtS):
		return l.A[0].A[1], l.A[0].A[0], false, true
	}
	return nil, nil, false, false
}
