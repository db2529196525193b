package main

// Unit propagation: a hypothesis that is a literal fixes the truth of its atom,
// and so does the negated goal; the atom is replaced in the other hypotheses, in
// terms and in patterns too. This resolves the conditions of merged paths. The
// result is equivalent.

func litAtom(t *Term) (*Term, *Term, bool) {
	v := tTrue
	if t.op == ONot {
		t, v = t.args[0], tFalse
	}
	switch t.op {
	case OApp, OVar, OEq, OEq0, OGe0:
		return t, v, true
	}
	return nil, nil, false
}

func propagate(hyps []*Term, goal *Term) ([]*Term, *Term) {
	var cur []*Term
	for _, h := range hyps {
		cur = append(cur, conjuncts(h)...)
	}
	known := map[*Term]bool{}
	for round := 0; round < 6; round++ {
		m := map[*Term]*Term{}
		fromGoal := map[*Term]bool{}
		src := map[*Term]bool{}
		add := func(l *Term, g bool) {
			a, v, ok := litAtom(l)
			if !ok || len(a.args) == 0 && a.op != OVar {
				return
			}
			put := func(a, v *Term) {
				if _, dup := m[a]; dup || a.isTrue() || a.isFalse() {
					return
				}
				m[a] = v
				fromGoal[a] = g
			}
			put(a, v)
			if a.op == OGe0 {
				n := mkNot(a)
				if b, bv, ok := litAtom(n); ok && b != a {
					if v.isTrue() {
						put(b, mkNot(bv))
					} else {
						put(b, bv)
					}
				}
			}
			src[l] = true
		}
		for _, h := range cur {
			add(h, false)
		}
		gs := []*Term{goal}
		if goal.op == OOr {
			gs = goal.args
		}
		for _, g := range gs {
			n := mkNot(g)
			if _, _, ok := litAtom(n); ok && !src[n] {
				add(n, true)
			}
		}
		fresh := false
		for a := range m {
			if !known[a] {
				known[a], fresh = true, true
			}
		}
		if !fresh {
			break
		}
		vars := map[*Term]bool{}
		for a := range m {
			for v := range freeVars(a) {
				vars[v] = true
			}
		}
		memo := map[*Term]*Term{}
		var next []*Term
		for _, h := range cur {
			if src[h] {
				next = append(next, conjuncts(inLit(h, m, vars, memo))...)
				continue
			}
			next = append(next, conjuncts(fixAtoms(h, m, vars, memo))...)
		}
		// the goal's own literals stay
		gm := map[*Term]*Term{}
		for a, v := range m {
			if !fromGoal[a] {
				gm[a] = v
			}
		}
		goal = fixAtoms(goal, gm, vars, map[*Term]*Term{})
		cur = next
	}
	return cur, goal
}

func fixAtoms(t *Term, m map[*Term]*Term, vars map[*Term]bool, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch {
	case t.op == OForall || t.op == OExists:
		for _, b := range t.bound {
			if vars[b] {
				memo[t] = t
				return t
			}
		}
		body := fixAtoms(t.args[0], m, vars, memo)
		var pats [][]*Term
		ch := body != t.args[0]
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				y := x
				if len(x.args) > 0 {
					args := make([]*Term, len(x.args))
					c := false
					for i, a := range x.args {
						args[i] = fixAtoms(a, m, vars, memo)
						c = c || args[i] != a
					}
					if c {
						y = rebuild(x, args)
						ch = true
					}
				}
				q = append(q, conjuncts(y)...)
			}
			pats = append(pats, q)
		}
		if ch {
			r = mkQ(t.op, t.bound, body, pats...)
		}
	case len(t.args) > 0:
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = fixAtoms(a, m, vars, memo)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

// inLit propagates inside a literal that is itself a hypothesis.
func inLit(h *Term, m map[*Term]*Term, vars map[*Term]bool, memo map[*Term]*Term) *Term {
	if h.op == ONot {
		return mkNot(inLit(h.args[0], m, vars, memo))
	}
	args := make([]*Term, len(h.args))
	ch := false
	for i, a := range h.args {
		args[i] = fixAtoms(a, m, vars, memo)
		ch = ch || args[i] != a
	}
	if !ch {
		return h
	}
	return rebuild(h, args)
}
