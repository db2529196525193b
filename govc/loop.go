package main

// Loop summarisation. A loop is unrolled when its header condition is
// constant, verified against user invariants when the contract gives them,
// and otherwise summarised: each variable the loop changes gets a closed form
// as a function of the loop counter by a rule that is sound for an arbitrary
// previous value ("hole").

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) loop(fr *Frame, st *State, l *Loop, pred *ssa.BasicBlock, stops stopSet) []Outcome {
	defer x.at(l.header)()
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if t, ok := in.(*ssa.IndexAddr); ok {
				if d, ok := t.X.(ssa.Instruction); !ok || !l.blocks[d.Block()] {
					x.materialise(st, t)
				}
			}
		}
	}
	if outs, ok := x.unroll(fr, st, l, pred); ok {
		return outs
	}
	owner, ord := x.loopKey(fr.fn, l.ord)
	inv := x.spec.loopInv(x.curContract(fr), owner, ord)
	if inv == nil && len(x.loopMap) == 0 && x.topFn != nil && fr.fn != x.topFn && len(findLoops(x.topFn)) <= l.ord {
		// a loop moved into a helper keeps the invariants it is given
		owner = fnName(x.topFn)
		inv = x.spec.loopInv(x.curContract(fr), owner, l.ord)
	}
	if inv != nil {
		return x.loopInvariant(fr, st, l, pred, inv, owner)
	}
	defer func(b bool) { splitLists = b }(splitLists)
	splitLists = false
	if o, ok := x.mapRange(fr, st, l, pred); ok {
		return o
	}
	return x.infer(fr, st, l, pred)
}

func (x *Exec) curContract(fr *Frame) *Contract { return x.cur }

func headerIf(b *ssa.BasicBlock) *ssa.If {
	i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i
}

func (l *Loop) bodyStops() stopSet {
	s := stopSet{l.header: true}
	for b := range l.exits {
		s[b] = true
	}
	return s
}

// ---------------------------------------------------------------- unrolling

func (x *Exec) headerCond(fr *Frame, st *State, l *Loop) (c *Term) {
	i := headerIf(l.header)
	if i == nil {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				c = nil
				return
			}
			panic(r)
		}
	}()
	x.quiet++
	defer func() { x.quiet-- }()
	s := st.clone()
	for _, in := range l.header.Instrs {
		switch t := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			pop := x.at(t)
			outs := x.call(s, &t.Call, t, t.Pos())
			pop()
			if len(outs) != 1 {
				return nil
			}
			s = outs[0].st
			s.env[t] = retValue(outs[0].rets, t.Type())
		default:
			pop := x.at(t)
			x.step(s, in)
			pop()
		}
	}
	return known(s, T(x.val(s, i.Cond)))
}

func (x *Exec) unroll(fr *Frame, st *State, l *Loop, pred *ssa.BasicBlock) ([]Outcome, bool) {
	nobl := len(x.obls)
	var exits []Outcome
	s := st.clone()
	x.phis(s, l.header, pred)
	for it := 0; it <= 24; it++ {
		c := x.headerCond(fr, s, l)
		if c == nil || !c.isTrue() && !c.isFalse() {
			x.obls = x.obls[:nobl]
			return nil, false
		}
		n0, f0 := len(s.pc), len(s.facts)
		x.site = append(x.site, fmt.Sprint("u", it))
		outs := x.run(fr, s, l.header, nil, l.bodyStops(), l.header)
		x.site = x.site[:len(x.site)-1]
		var back []Outcome
		for _, o := range outs {
			if o.blk == l.header {
				back = append(back, o)
			} else {
				exits = append(exits, o)
			}
		}
		if len(back) == 0 {
			return exits, true
		}
		s = x.mergeBack(l, back, n0, f0)
		if s == nil {
			x.obls = x.obls[:nobl]
			return nil, false
		}
	}
	x.obls = x.obls[:nobl]
	return nil, false
}

func (x *Exec) mergeBack(l *Loop, back []Outcome, n0, f0 int) *State {
	sts := make([]*State, len(back))
	for i, o := range back {
		x.phis(o.st, l.header, o.pred)
		sts[i] = o.st
	}
	return x.mergeStates(sts, n0, f0)
}

// ---------------------------------------------------------------- inference

type cell struct {
	phi    *ssa.Phi
	obj    int
	ghost  string
	init   Value
	hole   Value
	closed func(X *Term) Value
	next   Value
}

func (c *cell) String() string {
	switch {
	case c.phi != nil:
		return "variable " + c.phi.Comment
	case c.ghost != "":
		return "ghost " + c.ghost
	}
	return fmt.Sprintf("object %d", c.obj)
}

type counter struct {
	X, X0, end *Term // end: first value (in loop order) that stops
	step       int64
	phi        *ssa.Phi
	off        int64 // X = phi + off
	cond       *Term // header condition in terms of X
}

func (c *counter) dom(t *Term) *Term {
	if c.step > 0 {
		return mkAnd(mkLe(c.X0, t), mkLt(t, c.end))
	}
	return mkAnd(mkLe(t, c.X0), mkLt(c.end, t))
}

// range of the iterations before X: [lo,hi)
func (c *counter) before(X *Term) (lo, hi *Term) {
	if c.step > 0 {
		return c.X0, X
	}
	return mkAddC(X, 1), mkAddC(c.X0, 1)
}
func (c *counter) inBefore(y, X *Term) *Term {
	lo, hi := c.before(X)
	return mkAnd(mkLe(lo, y), mkLt(y, hi))
}
func (c *counter) last() *Term {
	if c.step > 0 {
		d := mkSub(c.end, c.X0)
		if nonneg(d) {
			return c.end
		}
		return mkIte(mkLe(c.X0, c.end), c.end, c.X0)
	}
	d := mkSub(c.X0, c.end)
	if nonneg(d) {
		return c.end
	}
	return mkIte(mkLe(c.end, c.X0), c.end, c.X0)
}

func makeHole(init Value, names map[string]bool, arr bool) Value {
	switch v := init.(type) {
	case *Term:
		t := freshVar("hole", v.sort)
		names[t.name] = true
		return t
	case *StructV:
		n := &StructV{names: v.names}
		for _, f := range v.F {
			n.F = append(n.F, makeHole(f, names, arr))
		}
		if v.idx != nil {
			n.idx = freshVar("holeidx", SInt)
			names[n.idx.name] = true
		}
		return n
	case *TupleV:
		n := &TupleV{}
		for _, f := range v.vs {
			n.vs = append(n.vs, makeHole(f, names, arr))
		}
		return n
	case *ListV:
		if v.elem == nil {
			t := freshVar("holestr", SStr)
			names[t.name] = true
			return t
		}
		r := freshVar("holeref", SRef)
		names[r.name] = true
		s := baseSeg(r)
		if arr {
			s.hi = v.length()
		}
		return &ListV{elem: v.elem, segs: []*Seg{s}, own: v.own}
	case *MapV:
		n := &MapV{keys: v.keys, elem: v.elem}
		h := fresh("holehas")
		names[h] = true
		n.has = mkApp(h, SBool, v.keys...)
		g := fresh("holeget")
		n.get = symValue(v.elem, g, func(p, s string) *Term {
			names[p] = true
			return mkApp(p, s, v.keys...)
		})
		return n
	case *IfaceV:
		if v.term != nil {
			t := freshVar("holeobj", SObj)
			names[t.name] = true
			return &IfaceV{term: t, st: v.st}
		}
	}
	return init
}

func hasHole(v Value, names map[string]bool) bool {
	hit := false
	seen := map[*Term]bool{}
	visitV(v, func(t *Term) {
		if hit {
			return
		}
		visit(t, seen, func(y *Term) {
			if (y.op == OVar || y.op == OApp) && names[y.name] {
				hit = true
			}
		})
	})
	return hit
}

func (x *Exec) infer(fr *Frame, st *State, l *Loop, pred *ssa.BasicBlock) []Outcome {
	s0 := st.clone()
	x.phis(s0, l.header, pred)
	var cells []*cell
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.deep(s0, s0.env[p])
		if _, ok := s0.env[p].(*SliceV); ok {
			v = s0.env[p] // reference: must not change
		}
		cells = append(cells, &cell{phi: p, init: v})
	}
	names := map[string]bool{}
	has := map[string]bool{}
	var cnt *counter
	set := func(s *State, c *cell, v Value) {
		switch {
		case c.phi != nil:
			s.env[c.phi] = v
		case c.ghost != "":
			s.ghost[c.ghost] = v
		default:
			o := *s.heap[c.obj]
			o.val = v
			s.heap[c.obj] = &o
		}
	}
	get := func(s *State, c *cell) Value {
		switch {
		case c.phi != nil:
			return s.env[c.phi]
		case c.ghost != "":
			return s.ghost[c.ghost]
		}
		return s.heap[c.obj].val
	}
	// one pass over the body
	pass := func(X *Term, facts []*Term) (outs []Outcome, n0, f0 int) {
		s := s0.clone()
		for _, c := range cells {
			if c.closed != nil {
				set(s, c, c.closed(X))
				continue
			}
			if c.hole == nil {
				c.hole = makeHole(c.init, names, c.obj != 0)
			}
			set(s, c, c.hole)
		}
		if cnt != nil {
			x.gen = append(x.gen, X)
			defer func() { x.gen = x.gen[:len(x.gen)-1] }()
			s.path(cnt.dom(X))
			s.path(subst(cnt.cond, map[*Term]*Term{cnt.X: X}))
		}
		for _, f := range facts {
			s.assume(f)
		}
		n0, f0 = len(s.pc), len(s.facts)
		outs = x.run(fr, s, l.header, nil, l.bodyStops(), l.header)
		x.onceOnly(s0, outs, l)
		return
	}
	var contX, factX *Term
	for round := 0; ; round++ {
		if round > 14 {
			fail("loop in %s: no closed form", fr.fn)
		}
		var X *Term
		if cnt != nil {
			X = cnt.X
		}
		x.quiet++
		nobl := len(x.obls)
		outs, n0, f0 := pass(X, nil)
		x.obls = x.obls[:nobl]
		x.quiet--
		var back []Outcome
		// objects and ghosts modified anywhere in the body
		changed := false
		for _, o := range outs {
			for id, ob := range s0.heap {
				k := fmt.Sprint("o", id)
				if !has[k] && !sameV(o.st.heap[id].val, ob.val) {
					has[k] = true
					changed = true
					cells = append(cells, &cell{obj: id, init: ob.val})
				}
			}
			for g, v := range s0.ghost {
				k := "g" + g
				if !has[k] && !sameV(o.st.ghost[g], v) {
					has[k] = true
					changed = true
					cells = append(cells, &cell{ghost: g, init: v})
				}
			}
			if o.blk == l.header {
				back = append(back, o)
			}
		}
		if changed {
			cnt = nil
			for _, c := range cells {
				c.closed = nil
			}
			continue
		}
		if len(back) == 0 {
			// the body never comes back: at most one iteration
			return x.singleIteration(fr, s0, l)
		}
		m := x.mergeBack(l, back, n0, f0)
		if m == nil {
			fail("loop in %s: paths through the body cannot be merged", fr.fn)
		}
		contX = mkAnd(m.pc[n0:]...)
		factX = mkAnd(m.facts[f0:]...)
		progress := false
		allDone := true
		var pend []string
		for _, c := range cells {
			if c.closed != nil {
				continue
			}
			c.next = get(m, c)
			if sameV(c.next, c.hole) {
				c.closed = func(*Term) Value { return c.init }
				progress = true
				continue
			}
			if fz, ch := freezeSame(c.init, c.hole, c.next); ch {
				c.hole = fz
				progress = true
				allDone = false
				continue
			}
			if cnt == nil {
				allDone = false
				continue
			}
			f := classify(c.init, c.hole, x.deepChanged(m, c.hole, c.next), cnt, names)
			if f == nil {
				allDone = false
				pend = append(pend, fmt.Sprintf("%s: next = %s", c, showV(c.next)))
				continue
			}
			c.closed = f
			progress = true
		}
		if cnt == nil {
			hs := s0.clone()
			for _, c := range cells {
				if c.closed != nil {
					set(hs, c, c.closed(nil))
				} else {
					set(hs, c, c.hole)
				}
			}
			cond := x.headerCond(fr, hs, l)
			if cond == nil {
				fail("loop in %s: no header condition to count by (%d)", fr.fn, l.ord)
			}
			cnt = findCounter(cells, cond, headerIf(l.header), l, names)
			if cnt != nil {
				for _, c := range cells {
					if c.phi == cnt.phi {
						off := cnt.off
						c.closed = func(X *Term) Value { return mkAddC(X, -off) }
					}
				}
				continue
			}
			if progress {
				continue
			}
			fail("loop in %s: no induction variable (condition %s)", fr.fn, cond)
		}
		if allDone && !progress {
			break
		}
		if !progress {
			fail("loop %d in %s: %s", l.ord, fr.fn, strings.Join(pend, "; "))
		}
	}
	// final pass: obligations and exits
	y := freshVar("y", SInt)
	all := func(X *Term) []*Term {
		body := subst(mkAnd(contX, factX), map[*Term]*Term{cnt.X: y})
		var fs []*Term
		for _, c := range conjuncts(body) {
			fs = append(fs, mkForall([]*Term{y}, mkImp(cnt.inBefore(y, X), c)))
		}
		return fs
	}
	mark := newOwn()
	outs, _, _ := pass(cnt.X, all(cnt.X))
	for _, o := range outs {
		for t := range o.st.used {
			if t < mark && !s0.used[t] && o.blk == l.header {
				x.oblige(o.st, "alias", "append does not overwrite what the previous iteration appended to the same slice", tFalse, l.header.Instrs[0].Pos())
				break
			}
		}
	}
	spend := func(s *State) {
		for _, c := range cells {
			if li, ok := c.init.(*ListV); ok && c.phi != nil && c.next != nil && !sameV(c.next, c.hole) {
				s.takeOwn(li.own)
			}
		}
	}
	var res []Outcome
	for i, o := range outs {
		if o.blk == l.header {
			continue
		}
		x.site = append(x.site, fmt.Sprint("exit", i))
		g := x.freshT("g", SInt)
		x.site = x.site[:len(x.site)-1]
		substState(o.st, cnt.X, g)
		for i, r := range o.rets {
			o.rets[i] = substV(r, map[*Term]*Term{cnt.X: g})
		}
		spend(o.st)
		res = append(res, o)
	}
	// normal exit
	s := s0.clone()
	for _, o := range outs {
		if o.blk == l.header {
			for t := range o.st.used {
				s.takeOwn(t)
			}
		}
	}
	spend(s)
	e := cnt.last()
	for _, c := range cells {
		set(s, c, c.closed(e))
	}
	for _, f := range all(e) {
		s.assume(f)
	}
	ec := subst(cnt.cond, map[*Term]*Term{cnt.X: e})
	if !ec.isFalse() {
		s.path(mkNot(ec))
	}
	res = append(res, x.run(fr, s, l.header, nil, l.bodyStops(), l.header)...)
	return res
}

func (x *Exec) singleIteration(fr *Frame, s0 *State, l *Loop) []Outcome {
	return x.run(fr, s0.clone(), l.header, nil, l.bodyStops(), l.header)
}

func substState(s *State, X, g *Term) {
	m := map[*Term]*Term{X: g}
	for i, t := range s.pc {
		s.pc[i] = subst(t, m)
	}
	for i, t := range s.facts {
		s.facts[i] = subst(t, m)
	}
	vars := map[*Term]bool{X: true}
	for k, v := range s.env {
		if mentions(v, vars) {
			s.env[k] = substV(v, m)
		}
	}
	for k, o := range s.heap {
		if mentions(o.val, vars) {
			n := *o
			n.val = substV(o.val, m)
			s.heap[k] = &n
		}
	}
	for k, v := range s.ghost {
		if mentions(v, vars) {
			s.ghost[k] = substV(v, m)
		}
	}
	for _, d := range s.defers {
		for i, a := range d.args {
			d.args[i] = substV(a, m)
		}
	}
}

// findCounter chooses the induction variable the header condition bounds.
func findCounter(cells []*cell, cond *Term, hif *ssa.If, l *Loop, names map[string]bool) *counter {
	// the loop continues on the successor inside the loop
	if !l.blocks[hif.Block().Succs[0]] {
		cond = mkNot(cond)
	}
	if cond.op != OGe0 {
		return nil
	}
	c, cs, as := linParts(cond.args[0])
	for _, cl := range cells {
		h, ok := cl.hole.(*Term)
		if !ok || cl.phi == nil || h.sort != SInt || cl.next == nil {
			continue
		}
		nt, ok := cl.next.(*Term)
		if !ok {
			continue
		}
		d := mkSub(nt, h)
		if !d.isInt() || d.ival != 1 && d.ival != -1 {
			continue
		}
		for i, a := range as {
			if a != h || cs[i] != 1 && cs[i] != -1 {
				continue
			}
			var rc []int64
			var ra []*Term
			ok := true
			for j := range as {
				if j != i {
					ok = ok && !hasHole(as[j], names)
					rc = append(rc, cs[j])
					ra = append(ra, as[j])
				}
			}
			if !ok {
				continue
			}
			rest := mkLin(c, rc, ra) // cs*h + rest >= 0
			init := cl.init.(*Term)
			k := &counter{step: d.ival, phi: cl.phi}
			// the offset used by the comparison in the source
			k.off = condOffset(hif, cl.phi, l)
			X := freshVar("x", SInt)
			k.X = X
			k.X0 = mkAddC(init, k.off)
			sub := map[*Term]*Term{h: mkAddC(X, -k.off)}
			k.cond = subst(cond, sub)
			if cs[i] == -1 && d.ival == 1 {
				// h <= rest: X <= rest+off, stops at rest+off+1
				k.end = mkAddC(rest, k.off+1)
				return k
			}
			if cs[i] == 1 && d.ival == -1 {
				// h >= -rest: X >= -rest+off, stops at -rest+off-1
				k.end = mkAddC(mkNeg(rest), k.off-1)
				return k
			}
		}
	}
	return nil
}

// condOffset: the comparison uses phi+off (range loops compare the incremented
// index).
func condOffset(hif *ssa.If, phi *ssa.Phi, l *Loop) int64 {
	if b, ok := hif.Cond.(*ssa.BinOp); ok {
		for _, o := range []ssa.Value{b.X, b.Y} {
			if a, ok := o.(*ssa.BinOp); ok && a.X == phi && a.Block() == l.header {
				if c, ok := a.Y.(*ssa.Const); ok {
					n := c.Int64()
					if a.Op.String() == "+" {
						return n
					}
					if a.Op.String() == "-" {
						return -n
					}
				}
			}
		}
	}
	return 0
}

// ---------------------------------------------------------------- closed forms

func replaceTerm(t, from, to *Term) *Term {
	return mapTerm(t, func(y *Term) *Term {
		if y == from {
			return to
		}
		return y
	}, map[*Term]*Term{})
}

func classify(init, hole, next Value, c *counter, names map[string]bool) func(*Term) Value {
	if sameV(hole, next) {
		return func(*Term) Value { return init }
	}
	switch h := hole.(type) {
	case *Term:
		it, ok := asTerm(init)
		if !ok {
			return nil
		}
		if h.sort == SStr {
			if f := classifyStr(init, h, next, c, names); f != nil {
				return f
			}
			if !hasHole(next, names) {
				if l, ok := next.(*ListV); ok {
					next = T(l)
				}
				return overwritten(it, next, c)
			}
			return nil
		}
		n, ok := next.(*Term)
		if !ok {
			return nil
		}
		if f := classifyTerm(it, h, n, c, names); f != nil {
			return f
		}
		if !hasHole(n, names) {
			return overwritten(it, n, c)
		}
		return nil
	case *StructV:
		i, ok1 := init.(*StructV)
		n, ok2 := next.(*StructV)
		if !ok1 || !ok2 {
			return nil
		}
		var fs []func(*Term) Value
		for k := range h.F {
			f := classify(i.F[k], h.F[k], n.F[k], c, names)
			if f == nil {
				return nil
			}
			fs = append(fs, f)
		}
		return func(X *Term) Value {
			r := &StructV{names: h.names}
			for _, f := range fs {
				r.F = append(r.F, f(X))
			}
			return r
		}
	case *ListV:
		i, ok1 := init.(*ListV)
		n, ok2 := next.(*ListV)
		if !ok1 || !ok2 {
			return nil
		}
		if f := classifyList(i, h, n, c, names); f != nil {
			return f
		}
		if !hasHole(n, names) && n.elem != nil && c.X != nil {
			return overwritten(i, n, c)
		}
		return nil
	case *MapV:
		i, ok1 := init.(*MapV)
		n, ok2 := next.(*MapV)
		if !ok1 || !ok2 {
			return nil
		}
		fh := classify(i.has, h.has, n.has, c, names)
		fg := classify(i.get, h.get, n.get, c, names)
		if fh == nil || fg == nil {
			return nil
		}
		return func(X *Term) Value {
			return &MapV{keys: h.keys, elem: h.elem, has: fh(X).(*Term), get: fg(X)}
		}
	case *IfaceV:
		i, ok1 := init.(*IfaceV)
		n, ok2 := next.(*IfaceV)
		if !ok1 || !ok2 || i.term == nil || n.term == nil || h.term == nil {
			return nil
		}
		f := classifyTerm(i.term, h.term, n.term, c, names)
		if f == nil {
			return nil
		}
		return func(X *Term) Value { return &IfaceV{term: f(X).(*Term), st: h.st} }
	}
	return nil
}

// deepChanged is deep on the parts of next that are not those of hole.
func (x *Exec) deepChanged(st *State, hole, next Value) Value {
	if sameV(hole, next) {
		return next
	}
	h, ok1 := hole.(*StructV)
	n, ok2 := next.(*StructV)
	if !ok1 || !ok2 || len(h.F) != len(n.F) {
		return x.deep(st, next)
	}
	r := &StructV{names: n.names, idx: n.idx}
	for i := range n.F {
		r.F = append(r.F, x.deepChanged(st, h.F[i], n.F[i]))
	}
	return r
}

// freezeSame puts the initial value in place of the fields a pass left alone.
func freezeSame(init, hole, next Value) (Value, bool) {
	h, ok := hole.(*StructV)
	i, ok1 := init.(*StructV)
	n, ok2 := next.(*StructV)
	if !ok || !ok1 || !ok2 {
		return hole, false
	}
	r := &StructV{names: h.names, idx: h.idx, F: append([]Value{}, h.F...)}
	ch := false
	for k := range h.F {
		if sameV(n.F[k], h.F[k]) {
			if !sameV(h.F[k], i.F[k]) {
				r.F[k] = i.F[k]
				ch = true
			}
			continue
		}
		f, c := freezeSame(i.F[k], h.F[k], n.F[k])
		r.F[k] = f
		ch = ch || c
	}
	return r, ch
}

// overwritten: the value of the previous iteration.
func overwritten(init, n Value, c *counter) func(*Term) Value {
	return func(X *Term) Value {
		if X == c.X0 {
			return init
		}
		d := int64(-1)
		if c.step < 0 {
			d = 1
		}
		p := substV(n, map[*Term]*Term{c.X: mkAddC(X, d)})
		first := mkEq(X, c.X0)
		r, ok := mergeV([]*Term{first, mkNot(first)}, []Value{init, p})
		if !ok {
			fail("overwritten variable")
		}
		return r
	}
}

// compOf collects segments of all earlier iterations.
func (c *counter) compOf(segs []*Seg, X *Term) []*Seg {
	if len(segs) == 0 {
		return nil
	}
	k := freshVar("k", SInt)
	lo, hi := c.before(X)
	if lo == hi {
		return nil
	}
	return flattenIter([]*Seg{compSeg(k, lo, hi, tTrue, substSegs(segs, map[*Term]*Term{c.X: k}), c.step < 0)})
}

func classifyStr(init Value, h *Term, next Value, c *counter, names map[string]bool) func(*Term) Value {
	var p *ListV
	switch n := next.(type) {
	case *ListV:
		p = n
	case *Term:
		p = strPieces(n)
	}
	if len(p.segs) == 0 || p.segs[0].kind != sLit || p.segs[0].val != Value(h) || !p.segs[0].guard.isTrue() {
		return nil
	}
	rest := p.segs[1:]
	if hasHole(&ListV{segs: rest}, names) {
		return nil
	}
	return func(X *Term) Value {
		return catStr(init, &ListV{segs: c.compOf(rest, X)})
	}
}

func classifyList(init, h, n *ListV, c *counter, names map[string]bool) func(*Term) Value {
	hs := h.segs[0]
	if len(n.segs) > 0 && sameSeg(n.segs[0], hs) {
		rest := n.segs[1:]
		if !hasHole(&ListV{segs: rest}, names) {
			return func(X *Term) Value {
				r := concat(init, &ListV{elem: h.elem, segs: c.compOf(rest, X)})
				if init.own > 0 && n.own > 0 {
					r.own = newOwn()
				}
				return r
			}
		}
		return nil
	}
	// elementwise
	if hs.hi.op == OApp && hs.hi.name == "len" && hs.hi.args[0] == hs.ref {
		return nil
	}
	if n.length() != hs.hi || hs.lo != mkInt(0) {
		return nil
	}
	e := freshVar("e", SInt)
	f := classify(init.index(e), h.index(e), n.index(e), c, names)
	if f == nil {
		return nil
	}
	return func(X *Term) Value {
		k := freshVar("e", SInt)
		v := substV(f(X), map[*Term]*Term{e: k})
		return &ListV{elem: h.elem, own: init.own, segs: []*Seg{compSeg(k, mkInt(0), hs.hi, tTrue, []*Seg{litSeg(v)}, false)}}
	}
}

func classifyTerm(init, h, n *Term, c *counter, names map[string]bool) func(*Term) Value {
	if n == h {
		return func(*Term) Value { return init }
	}
	at := func(t, y *Term) *Term { return subst(t, map[*Term]*Term{c.X: y}) }
	if !hasHole(n, names) {
		// the value of the previous iteration
		return func(X *Term) Value {
			lo, hi := c.before(X)
			prev := mkAddC(X, -c.step)
			return mkIte(mkLt(lo, hi), at(n, prev), init)
		}
	}
	if h.sort == SInt {
		d := mkSub(n, h)
		if d.isInt() {
			k := d.ival * c.step
			return func(X *Term) Value {
				return mkAdd(init, mkScale(k, mkSub(X, c.X0)))
			}
		}
		if !hasHole(d, names) {
			return func(X *Term) Value {
				y := freshVar("k", SInt)
				lo, hi := c.before(X)
				return mkAdd(init, mkSum(y, lo, hi, at(d, y)))
			}
		}
		// conditional increment: ite(g, h+a, h)
		if n.op == OIte {
			if t := iteDelta(n, h); t != nil && !hasHole(t, names) {
				return func(X *Term) Value {
					y := freshVar("k", SInt)
					lo, hi := c.before(X)
					return mkAdd(init, mkSum(y, lo, hi, at(t, y)))
				}
			}
		}
		if es, ok := maxElems(n, h); ok && !hasHole(&ListV{segs: es}, names) {
			return func(X *Term) Value { return mkMaxTerm(init, c.compOf(es, X)) }
		}
	}
	if h.sort == SBool {
		nt, nf := replaceTerm(n, h, tTrue), replaceTerm(n, h, tFalse)
		if hasHole(nt, names) || hasHole(nf, names) {
			return nil
		}
		y := freshVar("y", SInt)
		if nt.isTrue() {
			return func(X *Term) Value {
				return mkOr(init, mkExists([]*Term{y}, mkAnd(c.inBefore(y, X), at(nf, y))))
			}
		}
		if nf.isFalse() {
			return func(X *Term) Value {
				return mkAnd(init, mkForall([]*Term{y}, mkImp(c.inBefore(y, X), at(nt, y))))
			}
		}
	}
	// guarded overwrite
	g, v := overwrite(n, h)
	if g != nil && !hasHole(g, names) && !hasHole(v, names) {
		if !occurs(c.X, v) {
			y := freshVar("y", SInt)
			return func(X *Term) Value {
				return mkIte(mkExists([]*Term{y}, mkAnd(c.inBefore(y, X), at(g, y))), v, init)
			}
		}
		if p := onePoint(OExists, c.X, g); p != nil {
			return func(X *Term) Value {
				return mkIte(mkAnd(c.inBefore(p, X), at(g, p)), at(v, p), init)
			}
		}
	}
	return nil
}

// iteDelta rewrites ite(g, h+a, ite(..)) as h + ite(g,a,..).
func iteDelta(n, h *Term) *Term {
	if n.op == OIte {
		a, b := iteDelta(n.args[1], h), iteDelta(n.args[2], h)
		if a == nil || b == nil {
			return nil
		}
		return mkIte(n.args[0], a, b)
	}
	d := mkSub(n, h)
	if occurs(h, d) {
		return nil
	}
	if h.op == OApp {
		return nil
	}
	return d
}

// overwrite: n = ite(g, v, h).
func overwrite(n, h *Term) (g, v *Term) {
	if n.op != OIte {
		return nil, nil
	}
	c, a, b := n.args[0], n.args[1], n.args[2]
	if b == h {
		if g2, v2 := overwrite(a, h); g2 != nil {
			return mkAnd(c, g2), v2
		}
		return c, a
	}
	if a == h {
		if g2, v2 := overwrite(b, h); g2 != nil {
			return mkAnd(mkNot(c), g2), v2
		}
		return mkNot(c), b
	}
	ga, va := overwrite(a, h)
	gb, vb := overwrite(b, h)
	if gb != nil && vb == a {
		return mkOr(c, gb), a
	}
	if ga != nil && gb != nil {
		// both branches write
		if ga == gb {
			return ga, mkIte(c, va, vb)
		}
		return mkOr(mkAnd(c, ga), mkAnd(mkNot(c), gb)), mkIte(c, va, vb)
	}
	return nil, nil
}

func maxElems(n, h *Term) ([]*Seg, bool) {
	if n == h {
		return nil, true
	}
	if mi, ok := maxInfo[n]; ok {
		for i, s := range mi.segs {
			if s.kind == sLit && s.guard.isTrue() && s.val == Value(h) {
				return append(append([]*Seg{litSeg(mi.base)}, mi.segs[:i]...), mi.segs[i+1:]...), true
			}
		}
		b, ok := maxElems(mi.base, h)
		if !ok {
			return nil, false
		}
		return append(append([]*Seg{}, b...), mi.segs...), true
	}
	if n.op == OIte {
		c, a, b := n.args[0], n.args[1], n.args[2]
		if c == mkLe(b, a) || c == mkLt(b, a) {
			if ea, ok := maxElems(a, h); ok {
				return append(ea, litSeg(b)), true
			}
			if eb, ok := maxElems(b, h); ok {
				return append(eb, litSeg(a)), true
			}
		}
		ea, ok1 := maxElems(a, h)
		eb, ok2 := maxElems(b, h)
		if ok1 && ok2 {
			return append(guardSegs(c, ea), guardSegs(mkNot(c), eb)...), true
		}
	}
	return nil, false
}

func showV(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *StructV:
		var p []string
		for i, f := range x.F {
			p = append(p, x.names[i]+":"+showV(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *TupleV:
		var p []string
		for _, f := range x.vs {
			p = append(p, showV(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *ListV:
		return "[" + showSegs(x.segs) + "]"
	case *SliceV:
		return fmt.Sprintf("slice#%d", x.obj)
	case *PtrV:
		return fmt.Sprintf("&%d%v", x.obj, x.path)
	case *MapV:
		return "map{has " + x.has.String() + ", get " + showV(x.get) + "}"
	case *IfaceV:
		if x.term != nil {
			return x.term.String()
		}
		return "iface(" + showV(x.val) + ")"
	case *UnknownV:
		return "unknown(" + x.why + ")"
	}
	return fmt.Sprintf("%T", v)
}
func showSegs(ss []*Seg) string {
	var p []string
	for _, s := range ss {
		g := ""
		if !s.guard.isTrue() {
			g = "if " + s.guard.String() + ": "
		}
		switch s.kind {
		case sLit:
			p = append(p, g+showV(s.val))
		case sBase:
			p = append(p, fmt.Sprintf("%s%s[%s..%s]", g, s.ref, s.lo, s.hi))
		case sComp:
			p = append(p, fmt.Sprintf("%sfor %s in %s..%s {%s}", g, s.k.name, s.lo, s.hi, showSegs(s.body)))
		}
	}
	return strings.Join(p, ", ")
}
