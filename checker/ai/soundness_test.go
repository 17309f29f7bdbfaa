package ai

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// TestSolverSound compares the decisions of the linear domain, and the
// simplifications of terms, with all values of random formulas.

type ex struct {
	t  *Term
	ev func(v []uint64) uint64
	s  string
}

type gen4 struct {
	r    *rand.Rand
	w    int
	vars []ex
}

func m(w int) uint64 { return mask(w) }

func sx(v uint64, w int) int64 { return sval(v, w) }

func (g *gen4) expr(w, d int) ex {
	r := g.r
	if d == 0 || r.Intn(5) == 0 {
		if w == g.w && r.Intn(4) > 0 {
			return g.vars[r.Intn(len(g.vars))]
		}
		k := uint64(r.Intn(1 << uint(w)))
		if r.Intn(2) == 0 {
			k = uint64(r.Intn(4)-1) & m(w)
		}
		return ex{Int(w, k), func([]uint64) uint64 { return k }, fmt.Sprint(k)}
	}
	bin := func(n string, f func(a, b *Term) *Term, h func(a, b uint64) uint64) ex {
		a, b := g.expr(w, d-1), g.expr(w, d-1)
		return ex{f(a.t, b.t), func(v []uint64) uint64 { return h(a.ev(v), b.ev(v)) & m(w) }, "(" + a.s + n + b.s + ")"}
	}
	binc := func(n string, f func(a, b *Term) *Term, h func(a, b uint64) uint64) ex {
		a := g.expr(w, d-1)
		k := uint64(1 + r.Intn(1<<uint(w)-1))
		if r.Intn(2) == 0 {
			k = 1 << uint(r.Intn(w))
		}
		return ex{f(a.t, Int(w, k)), func(v []uint64) uint64 { return h(a.ev(v), k) & m(w) }, "(" + a.s + n + fmt.Sprint(k) + ")"}
	}
	shc := func(n string, f func(a, b *Term) *Term, h func(a, b uint64) uint64) ex {
		a := g.expr(w, d-1)
		k := uint64(r.Intn(w + 2))
		return ex{f(a.t, Int(w, k&m(w))), func(v []uint64) uint64 { return h(a.ev(v), k&m(w)) & m(w) }, "(" + a.s + n + fmt.Sprint(k&m(w)) + ")"}
	}
	switch r.Intn(17) {
	case 0, 1, 2:
		return bin("+", Add, func(a, b uint64) uint64 { return a + b })
	case 3, 4:
		return bin("-", Sub, func(a, b uint64) uint64 { return a - b })
	case 5:
		a := g.expr(w, d-1)
		k := uint64(r.Intn(7)-3) & m(w)
		return ex{Mul(a.t, Int(w, k)), func(v []uint64) uint64 { return a.ev(v) * k & m(w) }, "(" + a.s + "*" + fmt.Sprint(sx(k, w)) + ")"}
	case 6:
		return bin("*", Mul, func(a, b uint64) uint64 { return a * b })
	case 7:
		return binc("/", DivU, func(a, b uint64) uint64 { return a / b })
	case 8:
		return binc("%", RemU, func(a, b uint64) uint64 { return a % b })
	case 9:
		return bin("&", And, func(a, b uint64) uint64 { return a & b })
	case 10:
		return bin("|", Or, func(a, b uint64) uint64 { return a | b })
	case 11:
		return bin("^", Xor, func(a, b uint64) uint64 { return a ^ b })
	case 12:
		return shc("<<", Shl, func(a, b uint64) uint64 { return a << b })
	case 13:
		return shc(">>", ShrU, func(a, b uint64) uint64 { return a >> b })
	case 14:
		return binc("&c", And, func(a, b uint64) uint64 { return a & b })
	case 15:
		if w > g.w {
			a := g.expr(g.w, d-1)
			if r.Intn(2) == 0 {
				return ex{ZExt(w, a.t), a.ev, "zx(" + a.s + ")"}
			}
			return ex{SExt(w, a.t), func(v []uint64) uint64 { return uint64(sx(a.ev(v), g.w)) & m(w) }, "sx(" + a.s + ")"}
		}
		a := g.expr(w*2, d-1)
		return ex{Trunc(w, a.t), func(v []uint64) uint64 { return a.ev(v) & m(w) }, "tr(" + a.s + ")"}
	default:
		if w > g.w {
			return g.expr(w, d-1)
		}
		k := int64(1 + r.Intn(5))
		a := g.expr(w, d-1)
		if r.Intn(2) == 0 {
			return ex{DivS(a.t, I(w, k)), func(v []uint64) uint64 { return uint64(sx(a.ev(v), w)/k) & m(w) }, "(" + a.s + "s/" + fmt.Sprint(k) + ")"}
		}
		return ex{RemS(a.t, I(w, k)), func(v []uint64) uint64 { return uint64(sx(a.ev(v), w)%k) & m(w) }, "(" + a.s + "s%" + fmt.Sprint(k) + ")"}
	}
}

func I(w int, k int64) *Term { return Int(w, uint64(k)) }

func b2(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (g *gen4) lit(d int) ex {
	w := g.w
	if g.r.Intn(6) == 0 {
		w *= 2
	}
	a, b := g.expr(w, d), g.expr(w, d)
	var l ex
	switch g.r.Intn(3) {
	case 0:
		l = ex{Eq(a.t, b.t), func(v []uint64) uint64 { return b2(a.ev(v) == b.ev(v)) }, a.s + " == " + b.s}
	case 1:
		l = ex{Lt(false, a.t, b.t), func(v []uint64) uint64 { return b2(a.ev(v) < b.ev(v)) }, a.s + " <u " + b.s}
	default:
		l = ex{Lt(true, a.t, b.t), func(v []uint64) uint64 { return b2(sx(a.ev(v), w) < sx(b.ev(v), w)) }, a.s + " <s " + b.s}
	}
	if g.r.Intn(2) == 0 {
		k := l
		l = ex{Not(k.t), func(v []uint64) uint64 { return 1 - k.ev(v) }, "!(" + k.s + ")"}
	}
	return l
}

func TestSolverSound(t *testing.T) {
	n := 20000
	if s := os.Getenv("N"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	seed := int64(1)
	if s := os.Getenv("SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	typ := types.Typ[types.Int]
	r := rand.New(rand.NewSource(seed))
	proved := 0
	for i := 0; i < n; i++ {
		g := &gen4{r: r, w: 4}
		nv := 2 + r.Intn(2)
		for k := 0; k < nv; k++ {
			k := k
			g.vars = append(g.vars, ex{Sym("v", g.w, typ), func(v []uint64) uint64 { return v[k] }, string(rune('a' + k))})
		}
		d := 1 + r.Intn(2)
		var ls []ex
		f := (*Facts)(nil)
		for k := r.Intn(5); k > 0; k-- {
			l := g.lit(d)
			if l.t.True() || l.t.False() {
				k++
				if r.Intn(5) == 0 {
					k--
				}
			}
			ls = append(ls, l)
			if !l.t.False() {
				f = f.Add(l.t)
			}
		}
		q := g.lit(d)
		h := f.Holds(q.t)
		if h != 0 {
			proved++
		}
		v := make([]uint64, nv)
		for a := 0; a < 1<<uint(4*nv); a++ {
			for k := range v {
				v[k] = uint64(a>>uint(4*k)) & 15
			}
			ok := true
			for _, l := range ls {
				e := l.ev(v)
				if l.t.True() && e == 0 || l.t.False() && e == 1 {
					t.Fatalf("term of %s is %v, but not for %v", l.s, l.t, v)
				}
				if e == 0 {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			e := q.ev(v)
			if h > 0 && e == 0 || h < 0 && e == 1 {
				s := ""
				for _, l := range ls {
					s += fmt.Sprintf("  %s   %v\n", l.s, l.t)
				}
				t.Fatalf("seed %d case %d: decides %d for %s   %v with\n%s but %v", seed, i, h, q.s, q.t, s, v)
			}
		}
	}
	t.Logf("%d of %d decided", proved, n)
}
