package main

import (
	"fmt"

	"verif/checker/ai"
)

// Order is a set of facts x <= y, x < y, x == y and x != y between unsigned
// numbers, closed under transitivity.
type Order struct {
	ids   map[*ai.Term]int
	terms []*ai.Term
	rel   [][]int8 // 0 nothing, 1 <=, 2 <
	neq   map[[2]int]bool
	bad   bool
}

func newOrder() *Order { return &Order{ids: map[*ai.Term]int{}, neq: map[[2]int]bool{}} }

func (o *Order) clone() *Order {
	r := &Order{ids: make(map[*ai.Term]int, len(o.ids)), terms: append([]*ai.Term{}, o.terms...), neq: make(map[[2]int]bool, len(o.neq)), bad: o.bad}
	for k, v := range o.ids {
		r.ids[k] = v
	}
	for k := range o.neq {
		r.neq[k] = true
	}
	for _, row := range o.rel {
		r.rel = append(r.rel, append([]int8{}, row...))
	}
	return r
}

func maxOf(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func (o *Order) id(t *ai.Term) int {
	if i, ok := o.ids[t]; ok {
		return i
	}
	i := len(o.terms)
	o.ids[t] = i
	o.terms = append(o.terms, t)
	for k := range o.rel {
		o.rel[k] = append(o.rel[k], 0)
	}
	o.rel = append(o.rel, make([]int8, i+1))
	o.rel[i][i] = 1
	for k, u := range o.terms[:i] {
		if u.W != t.W {
			continue
		}
		for n := 0; n < 2; n++ {
			a, b, x, y := t, u, i, k
			if n == 1 {
				a, b, x, y = u, t, k, i
			}
			switch {
			case a.Op == ai.OInt && b.Op == ai.OInt && a.K < b.K:
				o.add(x, y, 2)
			case a.Op == ai.OInt && a.K == 0, b.Op == ai.OInt && b.K == maxOf(b.W):
				o.add(x, y, 1)
			}
		}
	}
	return i
}

// add records a fact and what follows from it.
func (o *Order) add(x, y int, r int8) {
	if r == 1 && o.neq[[2]int{x, y}] {
		r = 2
	}
	if o.rel[x][y] >= r {
		return
	}
	n := len(o.terms)
	var again [][2]int
	for i := 0; i < n; i++ {
		if o.rel[i][x] == 0 {
			continue
		}
		for j := 0; j < n; j++ {
			if o.rel[y][j] == 0 {
				continue
			}
			v := int8(1)
			if r == 2 || o.rel[i][x] == 2 || o.rel[y][j] == 2 {
				v = 2
			}
			if v > o.rel[i][j] {
				o.rel[i][j] = v
				if v == 1 && o.neq[[2]int{i, j}] {
					again = append(again, [2]int{i, j})
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if o.rel[i][i] == 2 {
			o.bad = true
		}
	}
	for _, p := range again {
		o.add(p[0], p[1], 2)
	}
}

func (o *Order) lt(a, b *ai.Term) { o.add(o.id(a), o.id(b), 2) }
func (o *Order) le(a, b *ai.Term) { o.add(o.id(a), o.id(b), 1) }
func (o *Order) eq(a, b *ai.Term) { o.le(a, b); o.le(b, a) }
func (o *Order) differ(a, b *ai.Term) {
	i, j := o.id(a), o.id(b)
	o.neq[[2]int{i, j}], o.neq[[2]int{j, i}] = true, true
	for k := 0; k < 2; k++ {
		if o.rel[i][j] == 1 {
			o.add(i, j, 2)
		}
		i, j = j, i
	}
	if i == j {
		o.bad = true
	}
}

// is tells what is known: 0 nothing, 1 a <= b, 2 a < b.
func (o *Order) is(a, b *ai.Term) int8 {
	if a == b {
		return 1
	}
	return o.rel[o.id(a)][o.id(b)]
}
func (o *Order) isEq(a, b *ai.Term) bool { return a == b || o.is(a, b) == 1 && o.is(b, a) == 1 }

// learn adds a literal.
func (o *Order) learn(l *ai.Term) {
	pos := true
	if l.Op == ai.ONot {
		l, pos = l.A[0], false
	}
	if len(l.A) != 2 || l.A[0].W != 64 && l.A[0].W != 8 {
		return
	}
	a, b := l.A[0], l.A[1]
	switch {
	case l.Op == ai.OLtU && pos:
		o.lt(a, b)
	case l.Op == ai.OLtU:
		o.le(b, a)
	case l.Op == ai.OEq && pos:
		o.eq(a, b)
	case l.Op == ai.OEq:
		o.differ(a, b)
	}
}

// orders holds the orders that states refer to.
var orders = map[*ai.Term]*Order{}

type orderKey struct {
	g *ai.Term
	f *ai.Facts
}

var orderMemo = map[orderKey]*Order{}

// order is what is known in a state. The result must not be changed.
func (d *DB) order(st *ai.State) *Order {
	g := st.Ghost(dbToken, "order")
	k := orderKey{g, st.Facts}
	if o := orderMemo[k]; o != nil {
		return o
	}
	o := orders[g]
	if o == nil {
		o = newOrder()
	}
	o = o.clone()
	st.Facts.Each(func(l *ai.Term) bool { o.learn(l); return true })
	if len(orderMemo) > 4000 {
		orderMemo = map[orderKey]*Order{}
	}
	orderMemo[k] = o
	return o
}

// learned makes an order what is known in a state.
func (d *DB) learned(st *ai.State, o *Order) {
	g := ai.App(fmt.Sprint("order", len(orders)), 0)
	orders[g] = o
	st.SetGhost(dbToken, "order", g)
}
