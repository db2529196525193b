package main

// Hash-consed first-order terms. Integers are mathematical. Linear integer
// arithmetic is kept in normal form (sum of coefficient*atom plus constant).

import (
	"fmt"
	"sort"
	"strings"
)

type Op int

const (
	OInt Op = iota // integer constant, ival
	OTrue
	OFalse
	OVar // free or bound variable
	OApp // uninterpreted function
	OLin // linear sum: ival + sum coefs[i]*args[i]
	OGe0 // args[0] >= 0
	OEq0 // args[0] == 0  (int)
	OEq  // args[0] == args[1] (non-int)
	ONot
	OAnd
	OOr
	OIte
	OForall // bound, args[0]
	OExists
	OMul // nonlinear product of args
)

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SRef  = "Ref"
	SFn   = "Fn"
	SErr  = "Err"
	SObj  = "Obj"
)

type Term struct {
	id    int
	op    Op
	name  string
	ival  int64
	coefs []int64
	args  []*Term
	bound []*Term
	pats  [][]*Term
	sort  string
	low   int64
	lowk  int            // 0 not computed, 1 known, 2 unknown
	fv    map[*Term]bool // free OVar terms (lazily)
	key   string
}

var (
	termTab = map[string]*Term{}
	termCnt int
	symCnt  = map[string]int{}
)

func intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s|%d|", t.op, t.name, t.sort, t.ival)
	for _, c := range t.coefs {
		fmt.Fprintf(&sb, "%d,", c)
	}
	sb.WriteByte('|')
	for _, a := range t.args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	sb.WriteByte('|')
	for _, a := range t.bound {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	for _, p := range t.pats {
		sb.WriteByte(';')
		for _, a := range p {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCnt++
	t.id = termCnt
	t.key = k
	termTab[k] = t
	return t
}

func fresh(base string) string {
	if i := strings.IndexByte(base, '!'); i >= 0 {
		base = base[:i]
	}
	symCnt[base]++
	return fmt.Sprintf("%s!%d", base, symCnt[base])
}

var (
	tTrue  = intern(&Term{op: OTrue, sort: SBool})
	tFalse = intern(&Term{op: OFalse, sort: SBool})
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(n int64) *Term { return intern(&Term{op: OInt, ival: n, sort: SInt}) }
func mkVar(name, sort string) *Term {
	return intern(&Term{op: OVar, name: name, sort: sort})
}
func freshVar(base, sort string) *Term { return mkVar(fresh(base), sort) }
func mkApp(name, sort string, args ...*Term) *Term {
	if len(args) == 0 {
		return mkVar(name, sort)
	}
	return intern(&Term{op: OApp, name: name, sort: sort, args: args})
}

func (t *Term) isInt() bool   { return t.op == OInt }
func (t *Term) isTrue() bool  { return t.op == OTrue }
func (t *Term) isFalse() bool { return t.op == OFalse }

// linear decomposition
func linParts(t *Term) (int64, []int64, []*Term) {
	switch t.op {
	case OInt:
		return t.ival, nil, nil
	case OLin:
		return t.ival, t.coefs, t.args
	}
	return 0, []int64{1}, []*Term{t}
}

func mkLin(c int64, coefs []int64, atoms []*Term) *Term {
	m := map[*Term]int64{}
	var order []*Term
	for i, a := range atoms {
		if _, ok := m[a]; !ok {
			order = append(order, a)
		}
		m[a] += coefs[i]
	}
	var as []*Term
	for _, a := range order {
		if m[a] != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkInt(c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	if c == 0 && len(as) == 1 && cs[0] == 1 {
		return as[0]
	}
	return intern(&Term{op: OLin, ival: c, coefs: cs, args: as, sort: SInt})
}

func addScaled(ts []*Term, ks []int64) *Term {
	var c int64
	var cs []int64
	var as []*Term
	for i, t := range ts {
		tc, tcs, tas := linParts(t)
		c += ks[i] * tc
		for j := range tas {
			cs = append(cs, ks[i]*tcs[j])
			as = append(as, tas[j])
		}
	}
	return mkLin(c, cs, as)
}
func mkAdd(ts ...*Term) *Term {
	ks := make([]int64, len(ts))
	for i := range ks {
		ks[i] = 1
	}
	return addScaled(ts, ks)
}
func mkSub(a, b *Term) *Term         { return addScaled([]*Term{a, b}, []int64{1, -1}) }
func mkNeg(a *Term) *Term            { return addScaled([]*Term{a}, []int64{-1}) }
func mkScale(k int64, a *Term) *Term { return addScaled([]*Term{a}, []int64{k}) }
func mkAddC(a *Term, k int64) *Term  { return mkAdd(a, mkInt(k)) }
func mkMul(a, b *Term) *Term {
	if a.isInt() {
		return mkScale(a.ival, b)
	}
	if b.isInt() {
		return mkScale(b.ival, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OMul, args: []*Term{a, b}, sort: SInt})
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// mkGe0 builds t >= 0.
// lower is a bound every value of the term respects (facts the axioms give).
func lower(t *Term) (int64, bool) {
	if t.lowk != 0 {
		return t.low, t.lowk == 1
	}
	l, ok := lower1(t)
	t.low, t.lowk = l, 2
	if ok {
		t.lowk = 1
	}
	return l, ok
}
func lower1(t *Term) (int64, bool) {
	if m := maxInfo[t]; m != nil {
		r, ok := lower(m.base)
		for _, s := range m.segs {
			if s.kind == sLit && s.guard.isTrue() {
				if l, ok2 := lower(T(s.val)); ok2 && (!ok || l > r) {
					r, ok = l, true
				}
			}
		}
		return r, ok
	}
	switch t.op {
	case OInt:
		return t.ival, true
	case OVar:
		if t.name == "dim" {
			return 1, true
		}
	case OApp:
		if t.name == "id" {
			return 1, true
		}
		if t.name == "len" || t.name == "strlen" {
			return 0, true
		}
		if sumNonneg[t.name] {
			return 0, true
		}
	case OIte:
		l1, ok1 := lowerUnder(t.args[1], t.args[0], true)
		l2, ok2 := lowerUnder(t.args[2], t.args[0], false)
		if ok1 && ok2 {
			return min(l1, l2), true
		}
	case OLin:
		r := t.ival
		for i, a := range t.args {
			l, ok := lower(a)
			if !ok || t.coefs[i] < 0 {
				return 0, false
			}
			r += t.coefs[i] * l
		}
		return r, true
	}
	return 0, false
}

// lowerUnder is a lower bound of t when the comparison c has the given value.
func lowerUnder(t, c *Term, pos bool) (int64, bool) {
	l, ok := lower(t)
	for c.op == ONot {
		c, pos = c.args[0], !pos
	}
	if c.op == OGe0 {
		p := c.args[0]
		if !pos {
			p = mkAddC(mkNeg(p), -1)
		}
		if l2, ok2 := lower(mkSub(t, p)); ok2 && (!ok || l2 > l) {
			return l2, true
		}
	}
	return l, ok
}
func geRaw(t *Term) *Term { return intern(&Term{op: OGe0, args: []*Term{t}, sort: SBool}) }

func mkGe0(t *Term) *Term {
	if t.isInt() {
		return mkBool(t.ival >= 0)
	}
	if l, ok := lower(t); ok && l >= 0 {
		return tTrue
	}
	if l, ok := lower(mkNeg(t)); ok && l > 0 {
		return tFalse
	}
	if t.op == OIte && t.args[1].isInt() && t.args[2].isInt() {
		return mkIte(t.args[0], mkGe0(t.args[1]), mkGe0(t.args[2]))
	}
	c, cs, as := linParts(t)
	var g int64
	for _, x := range cs {
		g = gcd64(g, x)
	}
	if g > 1 {
		ncs := make([]int64, len(cs))
		for i := range cs {
			ncs[i] = cs[i] / g
		}
		t = mkLin(floorDiv(c, g), ncs, as)
	}
	return intern(&Term{op: OGe0, args: []*Term{t}, sort: SBool})
}
func mkLe(a, b *Term) *Term { return mkGe0(mkSub(b, a)) }
func mkLt(a, b *Term) *Term { return mkGe0(mkAddC(mkSub(b, a), -1)) }

func isConstIte(t *Term) bool {
	return t.op == OIte && (isValueConst(t.args[1]) || isConstIte(t.args[1])) && (isValueConst(t.args[2]) || isConstIte(t.args[2]))
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return mkNot(b)
		}
		if b.isFalse() {
			return mkNot(a)
		}
		if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
			return tFalse
		}
		if a.op == ONot && b.op == ONot {
			return mkEq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
		return intern(&Term{op: OEq, args: []*Term{a, b}, sort: SBool})
	}
	if a.sort == SInt {
		if isConstIte(a) && isValueConst(b) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if isConstIte(b) && isValueConst(a) {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
		d := mkSub(a, b)
		if d.isInt() {
			return mkBool(d.ival == 0)
		}
		if l, ok := lower(d); ok && l > 0 {
			return tFalse
		}
		if l, ok := lower(mkNeg(d)); ok && l > 0 {
			return tFalse
		}
		c, cs, as := linParts(d)
		var g int64
		for _, x := range cs {
			g = gcd64(g, x)
		}
		if g > 1 {
			if c%g != 0 {
				return tFalse
			}
			ncs := make([]int64, len(cs))
			for i := range cs {
				ncs[i] = cs[i] / g
			}
			d = mkLin(c/g, ncs, as)
			_, cs, _ = linParts(d)
		}
		if cs[0] < 0 {
			d = mkNeg(d)
		}
		return intern(&Term{op: OEq0, args: []*Term{d}, sort: SBool})
	}
	if a.op == OIte && (isValueConst(b)) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == OIte && (isValueConst(a)) {
		return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
	}
	if isValueConst(a) && isValueConst(b) && a != b {
		if a.op == OApp && b.op == OApp && a.name == b.name && a.sort == SStr {
			// falls through: same constructor, arguments decide
		} else {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, args: []*Term{a, b}, sort: SBool})
}

// isValueConst: constructor-like terms that differ when they are different:
// string literals, error constructors, nil constants.
func isValueConst(t *Term) bool {
	if t.op == OInt || t.op == OTrue || t.op == OFalse {
		return true
	}
	if t.op == OVar || t.op == OApp {
		return strings.HasPrefix(t.name, "lit:") || strings.HasPrefix(t.name, "nil:") || strings.HasPrefix(t.name, "errNew:") || strings.HasPrefix(t.name, "errWrap:")
	}
	return false
}

func mkNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OGe0:
		return mkGe0(mkAddC(mkNeg(a.args[0]), -1))
	case OForall:
		return mkQ(OExists, a.bound, mkNot(a.args[0]))
	case OExists:
		return mkQ(OForall, a.bound, mkNot(a.args[0]), a.pats...)
	case OAnd:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = mkNot(x)
		}
		return mkOr(xs...)
	case OOr:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = mkNot(x)
		}
		return mkAnd(xs...)
	}
	return intern(&Term{op: ONot, args: []*Term{a}, sort: SBool})
}

func mkNary(op Op, unit, zero *Term, xs []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if seen[mkNotShallow(x)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: op, args: out, sort: SBool})
}

// mkNotShallow avoids building big negations just for the complement test.
func mkNotShallow(x *Term) *Term {
	switch x.op {
	case OAnd, OOr, OForall, OExists:
		return nil
	}
	return mkNot(x)
}

func mkAnd(xs ...*Term) *Term { return mkNary(OAnd, tTrue, tFalse, xs) }
func mkOr(xs ...*Term) *Term  { return mkNary(OOr, tFalse, tTrue, xs) }
func mkImp(a, b *Term) *Term  { return mkOr(mkNot(a), b) }
func mkIff(a, b *Term) *Term  { return mkEq(a, b) }

func mkIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() {
			return mkOr(c, b)
		}
		if a.isFalse() {
			return mkAnd(mkNot(c), b)
		}
		if b.isTrue() {
			return mkOr(mkNot(c), a)
		}
		if b.isFalse() {
			return mkAnd(c, a)
		}
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort == SInt && c.op == OGe0 && (maxLike(a) || maxLike(b)) {
		if d := mkSub(a, b); c.args[0] == d || c.args[0] == mkAddC(d, -1) {
			return mkMax2(a, b)
		}
	}
	return intern(&Term{op: OIte, args: []*Term{c, a, b}, sort: a.sort})
}

// maxLike tells whether a maximum with t is kept as an n-ary maximum.
func maxLike(t *Term) bool {
	return t.op == OApp && t.name == "id" || maxInfo[t] != nil
}
func mkMax2(a, b *Term) *Term {
	if maxInfo[a] == nil && (maxInfo[b] != nil || b.isInt()) {
		a, b = b, a
	}
	segs := []*Seg{litSeg(b)}
	if m := maxInfo[b]; m != nil {
		segs = append([]*Seg{litSeg(m.base)}, m.segs...)
	}
	return mkMaxTerm(a, segs)
}

func mkMax(a, b *Term) *Term { return mkIte(mkLe(a, b), b, a) }

func freeVars(t *Term) map[*Term]bool {
	if t.fv != nil {
		return t.fv
	}
	m := map[*Term]bool{}
	if t.op == OVar {
		m[t] = true
	}
	for _, a := range t.args {
		for v := range freeVars(a) {
			m[v] = true
		}
	}
	for _, b := range t.bound {
		delete(m, b)
	}
	t.fv = m
	return m
}
func occurs(v, t *Term) bool { return freeVars(t)[v] }

func mkQ(op Op, bound []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	var bs []*Term
	for _, b := range bound {
		if occurs(b, body) {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	// one-point rule
	if len(pats) == 0 {
		for _, b := range bs {
			if t := onePoint(op, b, body); t != nil {
				nb := subst(body, map[*Term]*Term{b: t})
				return mkQ(op, without(bs, b), nb)
			}
		}
	}
	if body.op == op && len(pats) == 0 && len(body.pats) == 0 {
		bs = append(append([]*Term{}, bs...), body.bound...)
		body = body.args[0]
	}
	return intern(&Term{op: op, bound: bs, args: []*Term{body}, pats: pats, sort: SBool})
}
func without(bs []*Term, b *Term) []*Term {
	var r []*Term
	for _, x := range bs {
		if x != b {
			r = append(r, x)
		}
	}
	return r
}

// onePoint looks for a conjunct (Exists) or disjunct (Forall, negated) fixing b.
func onePoint(op Op, b, body *Term) *Term {
	var parts []*Term
	if op == OExists {
		if body.op == OAnd {
			parts = body.args
		} else {
			parts = []*Term{body}
		}
	} else {
		if body.op == OOr {
			parts = body.args
		} else {
			parts = []*Term{body}
		}
	}
	for _, p := range parts {
		if op == OForall {
			if p.op != ONot {
				continue
			}
			p = p.args[0]
		}
		if p.op == OEq0 {
			c, cs, as := linParts(p.args[0])
			for i, a := range as {
				if a == b && (cs[i] == 1 || cs[i] == -1) {
					k := cs[i]
					ok := true
					var rc []int64
					var ra []*Term
					for j := range as {
						if j == i {
							continue
						}
						if occurs(b, as[j]) {
							ok = false
						}
						rc = append(rc, -k*cs[j])
						ra = append(ra, as[j])
					}
					if ok {
						return mkLin(-k*c, rc, ra)
					}
				}
			}
		}
		if p.op == OEq && p.args[0].sort != SBool {
			for i := 0; i < 2; i++ {
				if p.args[i] == b && !occurs(b, p.args[1-i]) {
					return p.args[1-i]
				}
			}
		}
	}
	return nil
}

func mkForall(b []*Term, body *Term, pats ...[]*Term) *Term { return mkQ(OForall, b, body, pats...) }
func mkExists(b []*Term, body *Term) *Term                  { return mkQ(OExists, b, body) }

// rebuild a node with new args through the smart constructors.
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OApp:
		return mkApp(t.name, t.sort, args...)
	case OLin:
		var ks []int64
		ks = append(ks, t.coefs...)
		ts := append([]*Term{}, args...)
		ts = append(ts, mkInt(t.ival))
		ks = append(ks, 1)
		return addScaled(ts, ks)
	case OGe0:
		return mkGe0(args[0])
	case OEq0:
		return mkEq(args[0], mkInt(0))
	case OEq:
		return mkEq(args[0], args[1])
	case ONot:
		return mkNot(args[0])
	case OAnd:
		return mkAnd(args...)
	case OOr:
		return mkOr(args...)
	case OIte:
		return mkIte(args[0], args[1], args[2])
	case OMul:
		return mkMul(args[0], args[1])
	}
	return t
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	return subst1(t, m, memo)
}
func subst1(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok && (t.op == OVar) {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	fv := freeVars(t)
	if len(m) < len(fv) {
		for v := range m {
			if fv[v] {
				hit = true
				break
			}
		}
	} else {
		for v := range fv {
			if _, ok := m[v]; ok {
				hit = true
				break
			}
		}
	}
	if !hit {
		return t
	}
	var r *Term
	if t.op == OForall || t.op == OExists {
		// avoid capture: rename bound variables occurring free in the image
		img := map[*Term]bool{}
		for k, v := range m {
			if fv[k] {
				for x := range freeVars(v) {
					img[x] = true
				}
			}
		}
		bs := t.bound
		body := t.args[0]
		pats := t.pats
		ren := map[*Term]*Term{}
		nb := make([]*Term, len(bs))
		for i, b := range bs {
			nb[i] = b
			if img[b] {
				nb[i] = freshVar(b.name, b.sort)
				ren[b] = nb[i]
			}
		}
		m2 := map[*Term]*Term{}
		for k, v := range m {
			m2[k] = v
		}
		for _, b := range bs {
			delete(m2, b)
		}
		for k, v := range ren {
			m2[k] = v
		}
		np := make([][]*Term, len(pats))
		for i, p := range pats {
			for _, x := range p {
				np[i] = append(np[i], subst(x, m2))
			}
		}
		r = mkQ(t.op, nb, subst(body, m2), np...)
	} else {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = subst1(a, m, memo)
		}
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// replaceApps rewrites every application through f (bottom up).
func mapTerm(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = mapTerm(a, f, memo)
			ch = ch || args[i] != a
		}
		if ch {
			if t.op == OForall || t.op == OExists {
				r = mkQ(t.op, t.bound, args[0], t.pats...)
			} else {
				r = rebuild(t, args)
			}
		}
	}
	r = f(r)
	memo[t] = r
	return r
}

func visit(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		visit(a, seen, f)
	}
	for _, p := range t.pats {
		for _, a := range p {
			visit(a, seen, f)
		}
	}
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t.isTrue() {
		return nil
	}
	return []*Term{t}
}

// canonAlpha renames the listed variables to canonical names, giving a key.
func canonKey(t *Term, vars []*Term) string {
	m := map[*Term]*Term{}
	for i, v := range vars {
		m[v] = mkVar(fmt.Sprintf("%%c%d", i), v.sort)
	}
	return alphaKey(subst(t, m), map[*Term]string{}, new(int))
}

// alphaKey is a string equal for alpha-equivalent terms.
func alphaKey(t *Term, env map[*Term]string, n *int) string {
	switch t.op {
	case OVar:
		if s, ok := env[t]; ok {
			return s
		}
		return t.name
	case OForall, OExists:
		old := map[*Term]string{}
		for _, b := range t.bound {
			if s, ok := env[b]; ok {
				old[b] = s
			}
			*n++
			env[b] = fmt.Sprintf("@%d", *n)
		}
		s := fmt.Sprintf("(Q%d %d %s)", t.op, len(t.bound), alphaKey(t.args[0], env, n))
		for _, b := range t.bound {
			delete(env, b)
			if o, ok := old[b]; ok {
				env[b] = o
			}
		}
		return s
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%d %s %d", t.op, t.name, t.ival)
	if t.op == OLin || t.op == OAnd || t.op == OOr || t.op == OEq {
		// argument order depends on ids: sort by rendered form
		parts := make([]string, len(t.args))
		for i, a := range t.args {
			c := int64(1)
			if t.op == OLin {
				c = t.coefs[i]
			}
			parts[i] = fmt.Sprintf("%d*%s", c, alphaKey(a, env, n))
		}
		sort.Strings(parts)
		sb.WriteString(strings.Join(parts, " "))
	} else {
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(alphaKey(a, env, n))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return render(t, 0) }

func render(t *Term, d int) string {
	if d > 40 {
		return "..."
	}
	j := func(op string) string {
		var p []string
		for _, a := range t.args {
			p = append(p, render(a, d+1))
		}
		return "(" + strings.Join(p, op) + ")"
	}
	switch t.op {
	case OInt:
		return fmt.Sprint(t.ival)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return t.name
	case OApp:
		var p []string
		for _, a := range t.args {
			p = append(p, render(a, d+1))
		}
		return t.name + "(" + strings.Join(p, ",") + ")"
	case OLin:
		var p []string
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				p = append(p, render(a, d+1))
			} else {
				p = append(p, fmt.Sprintf("%d*%s", t.coefs[i], render(a, d+1)))
			}
		}
		if t.ival != 0 {
			p = append(p, fmt.Sprint(t.ival))
		}
		return "(" + strings.Join(p, " + ") + ")"
	case OGe0:
		return "(" + render(t.args[0], d+1) + " >= 0)"
	case OEq0:
		return "(" + render(t.args[0], d+1) + " == 0)"
	case OEq:
		return j(" == ")
	case ONot:
		return "!" + render(t.args[0], d+1)
	case OAnd:
		return j(" && ")
	case OOr:
		return j(" || ")
	case OMul:
		return j(" * ")
	case OIte:
		return "ite(" + render(t.args[0], d+1) + ", " + render(t.args[1], d+1) + ", " + render(t.args[2], d+1) + ")"
	case OForall, OExists:
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		var b []string
		for _, x := range t.bound {
			b = append(b, x.name)
		}
		return q + " " + strings.Join(b, ",") + ". " + render(t.args[0], d+1)
	}
	return "?"
}
