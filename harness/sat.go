package main

import "github.com/jtcaraball/goexpdt/cnf"

// A small DPLL solver with watched literals, used as the oracle for formulas.
// It is complete; solve reports unknown only when the decision limit is hit.

type sat struct {
	n      int
	cls    [][]int
	watch  map[int][]int
	units  []int
	empty  bool
	val    []int8
	trail  []int
	limit  int
	budget int
}

const (
	satNo  = 0
	satYes = 1
	satUnk = 2
)

func newSat(sets ...[]cnf.Clause) *sat {
	s := &sat{watch: map[int][]int{}, limit: 20000}
	for _, cs := range sets {
		for _, c := range cs {
			s.add(c)
		}
	}
	return s
}

func (s *sat) grow(v int) {
	if v < 0 {
		v = -v
	}
	if v > s.n {
		s.n = v
	}
}

func (s *sat) add(c []int) {
	seen := map[int]bool{}
	var d []int
	for _, l := range c {
		s.grow(l)
		if seen[l] {
			continue
		}
		if seen[-l] {
			return
		}
		seen[l] = true
		d = append(d, l)
	}
	switch len(d) {
	case 0:
		s.empty = true
	case 1:
		s.units = append(s.units, d[0])
	default:
		i := len(s.cls)
		s.cls = append(s.cls, d)
		s.watch[d[0]] = append(s.watch[d[0]], i)
		s.watch[d[1]] = append(s.watch[d[1]], i)
	}
}

func (s *sat) value(l int) int8 {
	if l > 0 {
		return s.val[l]
	}
	return -s.val[-l]
}

func (s *sat) set(l int) {
	if l > 0 {
		s.val[l] = 1
	} else {
		s.val[-l] = -1
	}
	s.trail = append(s.trail, l)
}

func (s *sat) propagate(from int) bool {
	for from < len(s.trail) {
		l := -s.trail[from]
		from++
		ws := s.watch[l]
		out := ws[:0:0]
		for k, ci := range ws {
			c := s.cls[ci]
			if c[0] == l {
				c[0], c[1] = c[1], c[0]
			}
			if s.value(c[0]) == 1 {
				out = append(out, ci)
				continue
			}
			moved := false
			for j := 2; j < len(c); j++ {
				if s.value(c[j]) != -1 {
					c[1], c[j] = c[j], c[1]
					s.watch[c[1]] = append(s.watch[c[1]], ci)
					moved = true
					break
				}
			}
			if moved {
				continue
			}
			out = append(out, ci)
			if s.value(c[0]) == -1 {
				out = append(out, ws[k+1:]...)
				s.watch[l] = out
				return false
			}
			s.set(c[0])
		}
		s.watch[l] = out
	}
	return true
}

func (s *sat) undo(n int) {
	for len(s.trail) > n {
		l := s.trail[len(s.trail)-1]
		if l < 0 {
			l = -l
		}
		s.val[l] = 0
		s.trail = s.trail[:len(s.trail)-1]
	}
}

func (s *sat) solve(assume ...int) int {
	for _, l := range assume {
		s.grow(l)
	}
	if s.empty {
		return satNo
	}
	s.val = make([]int8, s.n+1)
	s.trail = s.trail[:0]
	s.budget = s.limit
	for _, l := range append(append([]int{}, s.units...), assume...) {
		switch s.value(l) {
		case -1:
			return satNo
		case 0:
			s.set(l)
		}
	}
	if !s.propagate(0) {
		return satNo
	}
	return s.search()
}

func (s *sat) search() int {
	v := 0
	for i := 1; i <= s.n; i++ {
		if s.val[i] == 0 {
			v = i
			break
		}
	}
	if v == 0 {
		return satYes
	}
	s.budget--
	if s.budget < 0 {
		return satUnk
	}
	unk := false
	for _, l := range []int{-v, v} {
		m := len(s.trail)
		s.set(l)
		if s.propagate(m) {
			switch s.search() {
			case satYes:
				return satYes
			case satUnk:
				unk = true
			}
		}
		if unk && s.budget < 0 {
			return satUnk
		}
		s.undo(m)
	}
	if unk {
		return satUnk
	}
	return satNo
}

func holds(cl []cnf.Clause, val func(v int) bool) bool {
	for _, c := range cl {
		ok := false
		for _, l := range c {
			if l > 0 && val(l) || l < 0 && !val(-l) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
