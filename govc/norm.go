package main

// Hypotheses are brought into a shape that suits pattern matching: quantifiers
// are moved outwards over conjunctions and disjunctions and merged, and a bound
// variable that occurs only with an offset is shifted. The result is equivalent.

func normHyp(t *Term) []*Term {
	return normN(t, 0)
}

func normN(t *Term, depth int) []*Term {
	if depth > 12 {
		return []*Term{t}
	}
	switch t.op {
	case OAnd:
		var r []*Term
		for _, a := range t.args {
			r = append(r, normN(a, depth+1)...)
		}
		return r
	case OTrue:
		return nil
	case OForall:
		ps := normN(t.args[0], depth+1)
		if len(t.pats) > 0 {
			return []*Term{mkForall(t.bound, mkAnd(ps...), t.pats...)}
		}
		var r []*Term
		for _, p := range ps {
			b := t.bound
			if p.op == OForall && len(p.pats) == 0 {
				p = freshBound(p)
				b = append(append([]*Term{}, b...), p.bound...)
				p = p.args[0]
			}
			r = append(r, shiftBound(b, p))
		}
		return r
	case OOr:
		n := -1
		for i, a := range t.args {
			if a.op == OAnd || a.op == OForall && len(a.pats) == 0 {
				if n >= 0 {
					return []*Term{t}
				}
				n = i
			}
		}
		if n < 0 {
			return []*Term{t}
		}
		rest := append(append([]*Term{}, t.args[:n]...), t.args[n+1:]...)
		var r []*Term
		for _, p := range normN(t.args[n], depth+1) {
			if p.op == OForall && len(p.pats) == 0 {
				p = freshBound(p)
				r = append(r, mkForall(p.bound, mkOr(append(rest[:len(rest):len(rest)], p.args[0])...)))
				continue
			}
			r = append(r, mkOr(append(rest[:len(rest):len(rest)], p)...))
		}
		return r
	}
	return []*Term{t}
}

func freshBound(f *Term) *Term {
	m := map[*Term]*Term{}
	var b []*Term
	for _, v := range f.bound {
		n := freshVar(v.name, v.sort)
		m[v] = n
		b = append(b, n)
	}
	r := mkForall(b, subst(f.args[0], m))
	return r
}

func shiftBound(bound []*Term, body *Term) *Term {
	for _, k := range bound {
		if k.sort != SInt {
			continue
		}
		plain := false
		var off int64
		found := false
		visit(body, map[*Term]bool{}, func(t *Term) {
			if t.op != OApp {
				return
			}
			for _, a := range t.args {
				if a == k {
					plain = true
				}
				if a.op == OLin && len(a.args) == 1 && a.args[0] == k && a.coefs[0] == 1 && !found {
					off, found = a.ival, true
				}
			}
		})
		if !plain && found && off != 0 {
			body = subst(body, map[*Term]*Term{k: mkAddC(k, -off)})
		}
	}
	return mkForall(bound, body)
}
