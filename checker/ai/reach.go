package ai

import (
	"sort"
	"strings"
)

// Reachable lists the values that can be reached from the given ones through
// memory.
func (s *State) Reachable(ts ...*Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) {
		if t == nil {
			return
		}
		t.Walk(func(u *Term) bool {
			if seen[u] {
				return false
			}
			seen[u] = true
			work = append(work, u)
			return true
		})
	}
	for _, t := range ts {
		add(t)
	}
	by := map[*Term][]*Term{}
	for k, v := range s.cells {
		if !strings.HasPrefix(k.path, "!") {
			by[k.base] = append(by[k.base], v)
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		if b := Base(t); b != nil && b != t {
			add(b)
		}
		for _, v := range by[t] {
			add(v)
		}
		by[t] = nil
	}
	return seen
}

// Dump lists what is known about memory.
func (s *State) Dump(f func(string)) {
	var r []string
	for k, v := range s.cells {
		r = append(r, k.base.String()+" "+k.path+" = "+v.String())
	}
	sort.Strings(r)
	for _, l := range r {
		f(l)
	}
}

// SliceLen is the length of data.
func SliceLen(t *Term) *Term { return App("len", 64, t) }
