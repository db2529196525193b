package main

// Definitions of sum/max symbols, SMT-LIB printing and the solver portfolio.

import (
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- registry

// A defined symbol: ax lists axioms that fix its meaning.
type symDef struct {
	name string
	ax   []*Term
	note string
}

var (
	defs    = map[string]*symDef{}
	sumKeys = map[string]string{}
	maxKeys = map[string]string{}
	maxInfo = map[*Term]*maxTerm{}
)

type maxTerm struct {
	base *Term
	segs []*Seg // Int elements
}

// params of an expression: its free variables, in a stable order.
func paramsOf(skip map[*Term]bool, ts ...*Term) []*Term {
	m := map[*Term]bool{}
	for _, t := range ts {
		for v := range freeVars(t) {
			if !skip[v] && !globalConst(v) {
				m[v] = true
			}
		}
	}
	var r []*Term
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func globalConst(v *Term) bool {
	return v.name == "dim" || strings.HasPrefix(v.name, "lit:") || strings.HasPrefix(v.name, "nil:")
}

// mkSum is the sum of body over k in [lo,hi).
func mkSum(k, lo, hi, body *Term) *Term {
	if !occurs(k, body) && body.isInt() {
		return mkScale(body.ival, span(lo, hi))
	}
	if hi.isInt() && lo.isInt() {
		if hi.ival <= lo.ival {
			return mkInt(0)
		}
		if hi.ival-lo.ival <= 4 {
			r := mkInt(0)
			for i := lo.ival; i < hi.ival; i++ {
				r = mkAdd(r, subst(body, map[*Term]*Term{k: mkInt(i)}))
			}
			return r
		}
	}
	if hi == lo {
		return mkInt(0)
	}
	ps := paramsOf(map[*Term]bool{k: true}, body)
	key := canonKey(body, append([]*Term{k}, ps...))
	for _, p := range ps {
		key += "/" + p.sort
	}
	name, ok := sumKeys[key]
	if !ok {
		name = fmt.Sprintf("sum:%d", len(sumKeys))
		sumKeys[key] = name
		l, h := mkVar("%lo", SInt), mkVar("%hi", SInt)
		qs := make([]*Term, len(ps))
		m := map[*Term]*Term{}
		for i, p := range ps {
			qs[i] = mkVar(fmt.Sprintf("%%p%d:%s", i, p.sort), p.sort)
			m[p] = qs[i]
		}
		m[k] = mkVar("%k", SInt)
		sumDefs[name] = &sumDef{qs, m[k], subst(body, m)}
		m[k] = mkAddC(h, -1)
		at := func(n string, h *Term) *Term {
			return mkApp(n, SInt, append([]*Term{l, h}, qs...)...)
		}
		b := subst(body, m)
		s, s2 := at(name, h), at(name+"'", h)
		step := mkIte(mkLe(h, l), mkInt(0), mkAdd(at(name+"'", mkAddC(h, -1)), b))
		bound := append([]*Term{l, h}, qs...)
		ax := []*Term{
			mkForall(bound, mkEq(s, step), []*Term{s}),
			mkForall(bound, mkEq(s, s2), []*Term{s}),
		}
		if isZeroOne(b) {
			sumNonneg[name] = true
			for _, s := range []*Term{s, s2} {
				ax = append(ax, mkForall(bound, mkAnd(geRaw(s), mkOr(mkEq(s, mkInt(0)), mkLe(s, mkSub(h, l)))), []*Term{s}))
			}
		} else if nonneg(b) {
			sumNonneg[name] = true
			ax = append(ax, mkForall(bound, geRaw(s), []*Term{s}), mkForall(bound, geRaw(s2), []*Term{s2}))
		}
		if body.op == OApp && body.name == "atInt" && len(ps) == 1 && body.args[0] == ps[0] && body.args[1] == k {
			// the elements of a list of zeros and ones: the sum is the length
			// exactly when all of them are one
			j := mkVar("%j", SInt)
			el := mkApp("atInt", SInt, qs[0], j)
			in := mkAnd(mkLe(l, j), mkLt(j, h))
			every := func(p *Term) *Term { return mkForall([]*Term{j}, mkImp(in, p), []*Term{el}) }
			ax = append(ax, mkForall(bound, mkImp(mkAnd(mkLe(l, h), every(mkAnd(geRaw(el), mkLe(el, mkInt(1))))),
				mkAnd(geRaw(s), mkLe(s, mkSub(h, l)), mkIff(mkEq(s, mkSub(h, l)), every(mkEq(el, mkInt(1)))))), []*Term{s}))
		}
		defs[name] = &symDef{name: name, ax: ax}
		defs[name+"'"] = &symDef{name: name + "'"}
	}
	return mkApp(name, SInt, append([]*Term{lo, hi}, ps...)...)
}

type sumDef struct {
	qs   []*Term
	k    *Term
	body *Term
}

var sumDefs = map[string]*sumDef{}

// zeroFacts lists what follows from a fact about sums of nonnegative terms: a
// sum that is zero has only zero terms, one that is not has a nonzero term.
func zeroFacts(t *Term) []*Term {
	var r []*Term
	zero := func(l *Term) { // l <= 0
		c, cs, as := linParts(l)
		if lo, ok := lower(l); !ok || lo < 0 || c != 0 {
			return
		}
		for i, a := range as {
			if cs[i] > 0 {
				if f := sumAllZero(a); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	nonzero := func(l *Term) { // l >= 1
		c, cs, as := linParts(l)
		if c > 0 {
			return
		}
		var fs []*Term
		for i, a := range as {
			if cs[i] <= 0 {
				return
			}
			f := sumAllZero(a)
			if f == nil {
				return
			}
			fs = append(fs, mkNot(f))
		}
		if len(fs) > 0 {
			r = append(r, mkOr(fs...))
		}
	}
	pos := true
	for t.op == ONot {
		t, pos = t.args[0], !pos
	}
	switch t.op {
	case OEq0:
		{
			d := t.args[0]
			if lo, ok := lower(d); !ok || lo < 0 {
				d = mkNeg(d)
			}
			if lo, ok := lower(d); ok && lo == 0 {
				if pos {
					zero(d)
				} else {
					nonzero(d)
				}
			}
		}
	case OGe0:
		if pos {
			zero(mkNeg(t.args[0]))
			nonzero(mkAddC(t.args[0], 1))
		} else {
			zero(t.args[0])
		}
	}
	return r
}

func sumAllZero(a *Term) *Term {
	if a.op != OApp {
		return nil
	}
	d := sumDefs[a.name]
	if d == nil || !sumNonneg[a.name] {
		return nil
	}
	k := freshVar("z", SInt)
	m := map[*Term]*Term{d.k: k}
	for i, q := range d.qs {
		m[q] = a.args[2+i]
	}
	return mkForall([]*Term{k}, mkImp(mkAnd(mkLe(a.args[0], k), mkLt(k, a.args[1])), mkEq(subst(d.body, m), mkInt(0))))
}
func isZeroOne(t *Term) bool {
	switch t.op {
	case OInt:
		return t.ival == 0 || t.ival == 1
	case OIte:
		return isZeroOne(t.args[1]) && isZeroOne(t.args[2])
	}
	return false
}

// mkMaxTerm is the maximum of base and all listed elements.
func mkMaxTerm(base *Term, segs []*Seg) *Term {
	if mi, ok := maxInfo[base]; ok {
		return mkMaxTerm(mi.base, append(append([]*Seg{}, mi.segs...), segs...))
	}
	var ns []*Seg
	seen := map[*Term]bool{}
	for _, s := range segs {
		if s.kind == sLit && s.guard.isTrue() {
			if t := s.val.(*Term); t.isInt() && base.isInt() {
				if t.ival > base.ival {
					base = t
				}
				continue
			}
		}
		if s.kind == sLit && s.guard.isTrue() && (seen[T(s.val)] || T(s.val) == base) {
			continue
		}
		if s.kind == sLit && s.guard.isTrue() {
			seen[T(s.val)] = true
		}
		ns = append(ns, s)
	}
	segs = ns
	if len(segs) == 0 {
		return base
	}
	m := map[*Term]bool{}
	visitSegs(segs, func(t *Term) {
		for v := range freeVars(t) {
			m[v] = true
		}
	})
	for v := range freeVars(base) {
		m[v] = true
	}
	for _, s := range segs {
		delBinders(s, m)
	}
	var ps []*Term
	for v := range m {
		if !globalConst(v) {
			ps = append(ps, v)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	cm := map[*Term]*Term{}
	qs := make([]*Term, len(ps))
	for i, p := range ps {
		qs[i] = mkVar(fmt.Sprintf("%%p%d:%s", i, p.sort), p.sort)
		cm[p] = qs[i]
	}
	cb := subst(base, cm)
	cs := substSegs(segs, cm)
	key := cb.String() + "|" + segKey(cs, map[*Term]string{}, new(int), &[]*Term{})
	var sb strings.Builder
	var as []*Term
	sb.WriteString(cb.String() + "|" + segKey(cs, map[*Term]string{}, new(int), &as))
	for _, a := range as {
		sb.WriteString("," + a.String())
	}
	key = sb.String()
	name, ok := maxKeys[key]
	if !ok {
		name = fmt.Sprintf("max:%d", len(maxKeys))
		maxKeys[key] = name
		t := mkApp(name, SInt, qs...)
		if len(qs) == 0 {
			t = mkVar(name, SInt)
		}
		el := func(f func(*Term) *Term, all bool) *Term {
			g := func(v Value) *Term { return f(T(v)) }
			if all {
				return listAll(cs, nil, g)
			}
			return listAny(cs, nil, g)
		}
		up := mkAnd(mkLe(cb, t), el(func(e *Term) *Term { return mkLe(e, t) }, true))
		ex := mkOr(mkEq(t, cb), el(func(e *Term) *Term { return mkEq(t, e) }, false))
		d := &symDef{name: name}
		if len(qs) > 0 {
			// conjunct by conjunct, so that inner quantifiers get own triggers
			for _, c := range conjuncts(up) {
				d.ax = append(d.ax, mkForallPat(qs, c, t))
			}
			d.ax = append(d.ax, mkForallPat(qs, ex, t))
		} else {
			d.ax = append(d.ax, up, ex)
		}
		defs[name] = d
	}
	t := mkApp(name, SInt, ps...)
	if _, ok := maxInfo[t]; !ok {
		maxInfo[t] = &maxTerm{base, segs}
	}
	return t
}
func mkForallPat(qs []*Term, c, t *Term) *Term {
	if c.op == OForall {
		// outer quantifier triggers on t, inner chosen by the solver
		return mkForall(qs, c, []*Term{t})
	}
	return mkForall(qs, c, []*Term{t})
}
func delBinders(s *Seg, m map[*Term]bool) {
	if s.kind == sComp {
		delete(m, s.k)
		for _, b := range s.body {
			delBinders(b, m)
		}
	}
}

// ---------------------------------------------------------------- printing

type smtPrinter struct {
	tags   bool
	sb     strings.Builder
	decl   map[string]string
	order  []string
	consts map[string]map[string]bool // sort -> distinct constants
}

func smtName(n string) string {
	ok := n != ""
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$%@~", r)) {
			ok = false
		}
	}
	if ok && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	var sb strings.Builder
	for _, r := range n {
		if r == '|' || r == '\\' || r < 32 || r > 126 {
			fmt.Fprintf(&sb, "#%x", r)
		} else {
			sb.WriteRune(r)
		}
	}
	return "|" + sb.String() + "|"
}

func (p *smtPrinter) declare(t *Term) {
	key := t.name
	if _, ok := p.decl[key]; ok {
		return
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.sort)
	}
	d := fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(t.name), strings.Join(as, " "), t.sort)
	p.decl[key] = d
	p.order = append(p.order, key)
	if t.op == OVar && isValueConst(t) {
		if p.consts[t.sort] == nil {
			p.consts[t.sort] = map[string]bool{}
		}
		p.consts[t.sort][t.name] = true
	}
}

// outerTerms are the largest list and integer terms in a quantified formula
// that do not depend on what it or a quantifier inside it binds.
func outerTerms(t *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var free func(x *Term, in map[*Term]bool) bool
	free = func(x *Term, in map[*Term]bool) bool {
		if in[x] {
			return false
		}
		for _, a := range x.args {
			if !free(a, in) {
				return false
			}
		}
		return x.op != OForall && x.op != OExists
	}
	var walk func(x *Term, in map[*Term]bool)
	walk = func(x *Term, in map[*Term]bool) {
		if x.op == OForall || x.op == OExists {
			n := map[*Term]bool{}
			for k := range in {
				n[k] = true
			}
			for _, b := range x.bound {
				n[b] = true
			}
			in = n
		}
		if x.op == OApp && len(x.args) > 0 && x.sort == SRef && free(x, in) {
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
			return
		}
		for _, a := range x.args {
			walk(a, in)
		}
	}
	walk(t, map[*Term]bool{})
	return r
}

func (p *smtPrinter) term(t *Term, bound map[*Term]bool) (out string) {
	args := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, p.term(a, bound))
		}
		return strings.Join(s, " ")
	}
	num := func(n int64) string {
		if n < 0 {
			return fmt.Sprintf("(- %d)", -n)
		}
		return fmt.Sprint(n)
	}
	switch t.op {
	case OInt:
		return num(t.ival)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		if !bound[t] {
			p.declare(t)
		}
		return smtName(t.name)
	case OApp:
		p.declare(t)
		return "(" + smtName(t.name) + " " + args() + ")"
	case OLin, OGe0, OEq0:
		if t.op == OLin {
			var s []string
			for i, a := range t.args {
				x := p.term(a, bound)
				if t.coefs[i] != 1 {
					x = "(* " + num(t.coefs[i]) + " " + x + ")"
				}
				s = append(s, x)
			}
			if t.ival != 0 {
				s = append(s, num(t.ival))
			}
			if len(s) == 1 {
				return s[0]
			}
			return "(+ " + strings.Join(s, " ") + ")"
		}
		// move negative parts to the other side
		c, cs, as := linParts(t.args[0])
		var l, r []string
		for i, a := range as {
			x := p.term(a, bound)
			k := cs[i]
			neg := k < 0
			if neg {
				k = -k
			}
			if k != 1 {
				x = "(* " + num(k) + " " + x + ")"
			}
			if neg {
				r = append(r, x)
			} else {
				l = append(l, x)
			}
		}
		if c > 0 {
			l = append(l, num(c))
		} else if c < 0 {
			r = append(r, num(-c))
		}
		side := func(s []string) string {
			if len(s) == 0 {
				return "0"
			}
			if len(s) == 1 {
				return s[0]
			}
			return "(+ " + strings.Join(s, " ") + ")"
		}
		op := ">="
		if t.op == OEq0 {
			op = "="
		}
		return "(" + op + " " + side(l) + " " + side(r) + ")"
	case OEq:
		return "(= " + args() + ")"
	case ONot:
		return "(not " + args() + ")"
	case OAnd:
		return "(and " + args() + ")"
	case OOr:
		return "(or " + args() + ")"
	case OIte:
		return "(ite " + args() + ")"
	case OMul:
		return "(* " + args() + ")"
	case OForall, OExists:
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		var bs []string
		for _, b := range t.bound {
			nb[b] = true
			bs = append(bs, "("+smtName(b.name)+" "+b.sort+")")
		}
		body := p.term(t.args[0], nb)
		tag := ""
		if p.tags {
			for _, x := range outerTerms(t) {
				tag += " (tag" + x.sort + " " + p.term(x, bound) + ")"
			}
		}
		if tag != "" {
			defer func() {
				if t.op == OExists {
					out = "(and" + tag + " " + out + ")"
				} else {
					out = "(or (not (and true" + tag + ")) " + out + ")"
				}
			}()
		}
		if len(t.pats) > 0 {
			var ps []string
			for _, pt := range t.pats {
				var xs []string
				for _, x := range pt {
					xs = append(xs, p.term(x, nb))
				}
				ps = append(ps, ":pattern ("+strings.Join(xs, " ")+")")
			}
			body = "(! " + body + " " + strings.Join(ps, " ") + ")"
		}
		return "(" + q + " (" + strings.Join(bs, " ") + ") " + body + ")"
	}
	return "?"
}

// closure of definitional axioms for the symbols used.
func axiomsFor(ts []*Term) []*Term {
	var out []*Term
	done := map[string]bool{}
	seen := map[*Term]bool{}
	var work []*Term
	work = append(work, ts...)
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		visit(t, seen, func(x *Term) {
			if x.op != OApp && x.op != OVar {
				return
			}
			if done[x.name] {
				return
			}
			done[x.name] = true
			if d := defs[x.name]; d != nil {
				for _, a := range d.ax {
					out = append(out, a)
					work = append(work, a)
				}
			}
			for _, a := range builtinAxioms(x) {
				out = append(out, a)
				work = append(work, a)
			}
			if x.op == OVar && isValueConst(x) {
				return
			}
		})
	}
	return out
}

func builtinAxioms(x *Term) []*Term {
	if x.op == OApp && (strings.HasPrefix(x.name, "errNew:") || strings.HasPrefix(x.name, "errWrap:")) {
		qs := make([]*Term, len(x.args))
		for i, a := range x.args {
			qs[i] = mkVar(fmt.Sprintf("%%q%d:%s", i, a.sort), a.sort)
		}
		t := mkApp(x.name, SErr, qs...)
		e := intern(&Term{op: OEq, args: []*Term{t, mkVar("nil:Err", SErr)}, sort: SBool})
		return []*Term{mkForall(qs, mkNot(e), []*Term{t})}
	}
	if x.op == OVar && x.sort == SErr && isValueConst(x) && x.name != "nil:Err" {
		return nil
	}
	a, r0, j, n0, c0 := mkVar("%a", SAsg), mkVar("%r", SRef), mkVar("%j", SInt), mkVar("%n", SInt), mkVar("%c", SRef)
	switch x.name {
	case "lit":
		t := mkApp("lit", SBool, a, n0)
		return []*Term{mkForall([]*Term{a, n0}, mkEq(t, mkIte(mkLe(mkInt(1), n0), valT(a, n0), mkNot(valT(a, mkNeg(n0))))), []*Term{t})}
	case "HOLDS":
		t := mkApp("HOLDS", SBool, a, r0)
		e := mkApp("HC", SBool, a, mkApp("atRef", SRef, r0, j))
		in := mkAnd(mkGe0(j), mkLt(j, lenRef(r0)))
		return []*Term{
			mkForall([]*Term{a, r0, j}, mkImp(mkAnd(t, in), e), []*Term{t, mkApp("atRef", SRef, r0, j)}),
			mkForall([]*Term{a, r0}, mkImp(mkForall([]*Term{j}, mkImp(in, e), []*Term{mkApp("atRef", SRef, r0, j)}), t), []*Term{t})}
	case "HC":
		t := mkApp("HC", SBool, a, c0)
		e := mkApp("lit", SBool, a, mkApp("atInt", SInt, c0, j))
		in := mkAnd(mkGe0(j), mkLt(j, lenRef(c0)))
		return []*Term{
			mkForall([]*Term{a, c0, j}, mkImp(mkAnd(mkNot(t), in), mkNot(e)), []*Term{t, mkApp("atInt", SInt, c0, j)}),
			mkForall([]*Term{a, c0}, mkImp(t, mkExists([]*Term{j}, mkAnd(in, e))), []*Term{t})}
	case "BND":
		t := mkApp("BND", SBool, n0, r0)
		e := mkApp("BNDC", SBool, n0, mkApp("atRef", SRef, r0, j))
		in := mkAnd(mkGe0(j), mkLt(j, lenRef(r0)))
		return []*Term{
			mkForall([]*Term{n0, r0, j}, mkImp(mkAnd(t, in), e), []*Term{t, mkApp("atRef", SRef, r0, j)}),
			mkForall([]*Term{n0, r0}, mkImp(mkForall([]*Term{j}, mkImp(in, e), []*Term{mkApp("atRef", SRef, r0, j)}), t), []*Term{t})}
	case "BNDC":
		t := mkApp("BNDC", SBool, n0, c0)
		l := mkApp("atInt", SInt, c0, j)
		e := mkAnd(mkNot(mkEq(l, mkInt(0))), mkLe(l, n0), mkLe(mkNeg(l), n0))
		in := mkAnd(mkGe0(j), mkLt(j, lenRef(c0)))
		return []*Term{
			mkForall([]*Term{n0, c0, j}, mkImp(mkAnd(t, in), e), []*Term{t, l}),
			mkForall([]*Term{n0, c0}, mkImp(mkForall([]*Term{j}, mkImp(in, e), []*Term{l}), t), []*Term{t})}
	case "len":
		r := mkVar("%r", SRef)
		return []*Term{mkForall([]*Term{r}, geRaw(mkApp("len", SInt, r)), []*Term{mkApp("len", SInt, r)})}
	case "dim":
		return []*Term{geRaw(mkAddC(x, -1))}
	case "id":
		// numbers are positive and distinct for distinct triples
		v, i, k := mkVar("%v", SStr), mkVar("%i", SInt), mkVar("%k", SInt)
		t := mkApp("id", SInt, v, i, k)
		return []*Term{mkForall([]*Term{v, i, k}, mkAnd(geRaw(mkAddC(t, -1)),
			mkEq(mkApp("idV", SStr, t), v), mkEq(mkApp("idI", SInt, t), i), mkEq(mkApp("idK", SInt, t), k)), []*Term{t})}
	}
	return nil
}

// sumsAgree: two sums over the same range whose terms agree are equal.
func sumsAgree(ts []*Term) []*Term {
	used := map[string]bool{}
	seen := map[*Term]bool{}
	for _, t := range ts {
		visit(t, seen, func(y *Term) {
			if y.op == OApp && sumDefs[y.name] != nil {
				used[y.name] = true
			}
		})
	}
	var names []string
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	var r []*Term
	l, h, k := mkVar("%lo", SInt), mkVar("%hi", SInt), mkVar("%j", SInt)
	for i, n1 := range names {
		for _, n2 := range names[:i] {
			d1, d2 := sumDefs[n1], sumDefs[n2]
			if len(d1.qs) != len(d2.qs) {
				continue
			}
			same := true
			qs := make([]*Term, len(d2.qs))
			m1, m2 := map[*Term]*Term{d1.k: k}, map[*Term]*Term{d2.k: k}
			for a, p := range d2.qs {
				same = same && p.sort == d1.qs[a].sort
				qs[a] = mkVar(fmt.Sprintf("%%q%d:%s", a, p.sort), p.sort)
				m2[p] = qs[a]
			}
			if !same {
				continue
			}
			s1 := mkApp(n1, SInt, append([]*Term{l, h}, d1.qs...)...)
			s2 := mkApp(n2, SInt, append([]*Term{l, h}, qs...)...)
			b1, b2 := subst(d1.body, m1), subst(d2.body, m2)
			in := mkAnd(mkLe(l, k), mkLt(k, h))
			r = append(r, mkForall(append(append([]*Term{l, h}, d1.qs...), qs...),
				mkOr(mkEq(s1, s2), mkExists([]*Term{k}, mkAnd(in, mkNot(mkEq(b1, b2))))), []*Term{s1, s2}))
		}
	}
	return r
}

func smtScript(assumes []*Term, goal *Term) string { return smtScriptTag(assumes, goal, false) }

// smtScriptTag: with tags, quantified subformulas name the terms of other
// quantifiers they mention, so that the solver sees them when it instantiates.
func smtScriptTag(assumes []*Term, goal *Term, tags bool) string {
	p := &smtPrinter{tags: tags, decl: map[string]string{}, consts: map[string]map[string]bool{}}
	all := append(append([]*Term{}, assumes...), goal)
	for _, a := range append(append([]*Term{}, assumes...), mkNot(goal)) {
		for _, c := range conjuncts(a) {
			if z := zeroFacts(c); len(z) > 0 {
				assumes = append(assumes[:len(assumes):len(assumes)], z...)
				all = append(all, z...)
			}
		}
	}
	ax := axiomsFor(all)
	if tags {
		ax = append(ax, sumsAgree(all)...)
	}
	var body strings.Builder
	emit := func(t *Term) {
		if t.isTrue() {
			return
		}
		fmt.Fprintf(&body, "(assert %s)\n", p.term(t, nil))
	}
	for _, a := range append(ax[:len(ax):len(ax)], assumes...) {
		for _, c := range normHyp(a) {
			emit(c)
		}
	}
	fmt.Fprintf(&body, "(assert (not %s))\n", p.term(goal, nil))
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, s := range []string{SStr, SRef, SFn, SErr, SObj, SAsg} {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	if tags {
		sb.WriteString("(declare-fun tagRef (Ref) Bool)\n(assert (forall ((r Ref)) (! (tagRef r) :pattern ((tagRef r)))))\n")
	}
	for _, k := range p.order {
		sb.WriteString(p.decl[k])
		sb.WriteByte('\n')
	}
	var sorts []string
	for s := range p.consts {
		sorts = append(sorts, s)
	}
	sort.Strings(sorts)
	for _, s := range sorts {
		var ns []string
		for n := range p.consts[s] {
			ns = append(ns, smtName(n))
		}
		if len(ns) > 1 {
			sort.Strings(ns)
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

const SAsg = "Asg"

// ---------------------------------------------------------------- solving

type solverRes struct {
	status string // unsat sat unknown timeout error
	solver string
	dur    time.Duration
	output string
}

type solverCmd struct {
	name string
	args func(file string, sec float64) []string
}

var solvers = []solverCmd{
	{"z3-new", func(f string, s float64) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(s)+1), "smt.mbqi=false", "auto_config=false", f}
	}},
	{"z3-4.8.12", func(f string, s float64) []string {
		return []string{"z3", "-smt2", fmt.Sprintf("-T:%d", int(s)+1), f}
	}},
	{"cvc5", func(f string, s float64) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", int(s*1000)), f}
	}},
	{"z3-new-mbqi", func(f string, s float64) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(s)+1), f}
	}},
}

var (
	workDir   string
	solverSem = make(chan struct{}, 8)
	queryMu   sync.Mutex
)

func runOne(s solverCmd, file string, sec float64, ctx context.Context) solverRes {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return solverRes{status: "cancelled", solver: s.name}
	}
	defer func() { <-solverSem }()
	t0 := time.Now()
	a := s.args(file, sec)
	c, cancel := context.WithTimeout(ctx, time.Duration((sec+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c, a[0], a[1:]...)
	out, _ := cmd.CombinedOutput()
	r := solverRes{solver: s.name, dur: time.Since(t0), output: strings.TrimSpace(string(out))}
	first := strings.TrimSpace(strings.SplitN(r.output, "\n", 2)[0])
	switch {
	case first == "unsat" || first == "sat" || first == "unknown":
		r.status = first
	case strings.Contains(r.output, "timeout") || c.Err() != nil:
		r.status = "timeout"
	default:
		r.status = "error"
	}
	return r
}

var (
	declRe = regexp.MustCompile(`^\(declare-fun (\|[^|]*\||\S+) `)
	symRe  = regexp.MustCompile(`\|[^|]*\||[^\s()]+`)
)

// relevant keeps the assertions that share a rare symbol with the goal, or
// with an assertion kept before, for some rounds. Dropping assertions is sound.
func relevant(script string, rounds int, tol float64) string {
	lines := strings.Split(script, "\n")
	decl := map[string]bool{}
	syms := make([][]string, len(lines))
	count := map[string]int{}
	goal := -1
	for i, l := range lines {
		if m := declRe.FindStringSubmatch(l); m != nil {
			decl[m[1]] = true
			continue
		}
		if !strings.HasPrefix(l, "(assert") {
			continue
		}
		goal = i
		seen := map[string]bool{}
		for _, w := range symRe.FindAllString(l, -1) {
			if decl[w] && !seen[w] {
				seen[w] = true
				syms[i] = append(syms[i], w)
				count[w]++
			}
		}
	}
	if goal < 0 {
		return script
	}
	rel := map[string]bool{}
	keep := map[int]bool{goal: true}
	for _, w := range syms[goal] {
		rel[w] = true
	}
	for ; rounds > 0; rounds-- {
		var add []int
		for i := range lines {
			if keep[i] || !strings.HasPrefix(lines[i], "(assert") {
				continue
			}
			least := 1 << 30
			for _, w := range syms[i] {
				least = min(least, count[w])
			}
			ok := len(syms[i]) == 0
			for _, w := range syms[i] {
				ok = ok || rel[w] && float64(count[w]) <= tol*float64(least)
			}
			if ok {
				add = append(add, i)
			}
		}
		for _, i := range add {
			keep[i] = true
			for _, w := range syms[i] {
				rel[w] = true
			}
		}
	}
	var sb strings.Builder
	for i, l := range lines {
		if !strings.HasPrefix(l, "(assert") || keep[i] {
			sb.WriteString(l)
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// solve runs the portfolio. unsat from any solver discharges.
func solve(script, tagged string, sec float64) solverRes {
	h := sha256.Sum256([]byte(script))
	file := filepath.Join(workDir, fmt.Sprintf("q%x.smt2", h[:8]))
	if err := os.WriteFile(file, []byte(script), 0o644); err != nil {
		return solverRes{status: "error", output: err.Error()}
	}
	// quick first attempt
	quick := sec / 4
	if quick > 4 {
		quick = 4
	}
	r := runOne(solvers[0], file, quick, context.Background())
	if r.status == "unsat" {
		return r
	}
	return portfolio(script, tagged, file, sec, solvers, r)
}

// resolve runs the portfolio with other seeds added.
func resolve(script, tagged string, sec float64) solverRes {
	h := sha256.Sum256([]byte(script))
	file := filepath.Join(workDir, fmt.Sprintf("q%x.smt2", h[:8]))
	ss := append([]solverCmd{}, solvers...)
	for _, seed := range []string{"1", "2"} {
		seed := seed
		ss = append(ss, solverCmd{"z3-new-seed" + seed, func(f string, s float64) []string {
			return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(s)+1), "smt.mbqi=false", "auto_config=false", "smt.random_seed=" + seed, "sat.random_seed=" + seed, f}
		}})
	}
	return portfolio(script, tagged, file, sec, ss, solverRes{status: "timeout"})
}

func portfolio(script, tagged, file string, sec float64, solvers []solverCmd, r solverRes) solverRes {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type job struct {
		s    solverCmd
		file string
		part bool
	}
	var jobs []job
	seen := map[string]bool{script: true}
	if f := strings.TrimSuffix(file, ".smt2") + ".t.smt2"; tagged != "" && os.WriteFile(f, []byte(tagged), 0o644) == nil {
		jobs = append(jobs, job{solvers[0], f, true})
		if p := relevant(tagged, 3, 2); os.WriteFile(f+".smt2", []byte(p), 0o644) == nil {
			jobs = append(jobs, job{solvers[0], f + ".smt2", true})
		}
	}
	for k, v := range []struct {
		rounds int
		tol    float64
	}{{2, 1.2}, {3, 1.5}, {4, 2}} {
		part := relevant(script, v.rounds, v.tol)
		if seen[part] {
			continue
		}
		seen[part] = true
		f := fmt.Sprintf("%s.%d.smt2", strings.TrimSuffix(file, ".smt2"), k)
		if os.WriteFile(f, []byte(part), 0o644) == nil {
			jobs = append(jobs, job{solvers[0], f, true})
		}
	}
	for _, s := range solvers {
		jobs = append(jobs, job{s, file, false})
	}
	ch := make(chan solverRes, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			x := runOne(j.s, j.file, sec, ctx)
			if j.part && x.status != "unsat" {
				x.status, x.output = "cancelled", "" // says nothing about the full query
			}
			ch <- x
		}()
	}
	best := r
	for range jobs {
		x := <-ch
		if x.status == "unsat" {
			return x
		}
		if x.status == "sat" && best.status != "sat" || best.status == "timeout" && x.status == "unknown" {
			best = x
		}
		if x.status == "error" && best.status != "sat" {
			best = x
		}
	}
	return best
}

func solveFast(script string, sec float64) solverRes {
	h := sha256.Sum256([]byte(script))
	file := filepath.Join(workDir, fmt.Sprintf("v%x.smt2", h[:8]))
	if err := os.WriteFile(file, []byte(script), 0o644); err != nil {
		return solverRes{status: "error", output: err.Error()}
	}
	var r solverRes
	for _, s := range solvers {
		if r = runOne(s, file, sec, context.Background()); r.status == "unsat" {
			break
		}
	}
	return r
}
