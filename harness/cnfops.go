package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
)

func rClause(r *rand.Rand, nv int) cnf.Clause {
	n := []int{0, 1, 1, 2, 2, 2, 3, 3, 4}[r.Intn(9)]
	if n == 0 && r.Intn(3) > 0 {
		n = 1
	}
	if r.Intn(40) == 0 {
		n = 5 + r.Intn(8)
	}
	c := make(cnf.Clause, n)
	for i := range c {
		c[i] = 1 + r.Intn(nv)
		if r.Intn(2) == 0 {
			c[i] = -c[i]
		}
	}
	return c
}

func rClauses(r *rand.Rand, nv int) []cnf.Clause {
	n := r.Intn(5)
	if r.Intn(15) == 0 {
		n = r.Intn(14)
	}
	cs := make([]cnf.Clause, n)
	for i := range cs {
		cs[i] = rClause(r, nv)
	}
	return cs
}

func copyCls(cs []cnf.Clause) []cnf.Clause {
	out := make([]cnf.Clause, len(cs))
	for i, c := range cs {
		out[i] = append(cnf.Clause{}, c...)
	}
	return out
}

func multiset(sets ...[]cnf.Clause) string {
	var ss []string
	for _, cs := range sets {
		for _, c := range cs {
			ss = append(ss, fmt.Sprint([]int(c)))
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func maxV(sets ...[]cnf.Clause) int {
	m := 0
	for _, cs := range sets {
		for _, c := range cs {
			for _, l := range c {
				if l < 0 {
					l = -l
				}
				if l > m {
					m = l
				}
			}
		}
	}
	return m
}

// rCNF builds a formula through the exported operations.
func rCNF(r *rand.Rand, nv int) (cnf.CNF, []cnf.Clause, []cnf.Clause, string) {
	s, c := rClauses(r, nv), rClauses(r, nv)
	if r.Intn(2) == 0 {
		for i := 0; i < len(c); i++ {
			if len(c[i]) == 0 {
				c[i] = cnf.Clause{1}
			}
		}
	}
	var f cnf.CNF
	if r.Intn(2) == 0 {
		f = cnf.FromClauses(copyCls(s))
	} else {
		f = f.AppendSemantics(copyCls(s)...)
	}
	f = f.AppendConsistency(copyCls(c)...)
	return f, s, c, fmt.Sprintf("semantic %v consistency %v", s, c)
}

func hasPrefix(cs, p []cnf.Clause) bool {
	return len(cs) >= len(p) && fmt.Sprint(cs[:len(p)]) == fmt.Sprint(p)
}

// contains: every clause of p occurs in cs at least as often.
func contains(cs, p []cnf.Clause) bool {
	n := map[string]int{}
	for _, c := range cs {
		n[fmt.Sprint([]int(c))]++
	}
	for _, c := range p {
		k := fmt.Sprint([]int(c))
		if n[k]--; n[k] < 0 {
			return false
		}
	}
	return true
}

func negateCase(r *rand.Rand, idx int, st *stats) string {
	nv := 1 + r.Intn(5)
	f, s, c, what := rCNF(r, nv)
	top := maxV(s, c)
	nv = top
	if f.TopV() < top {
		return fmt.Sprintf("%s: top variable %d below %d", what, f.TopV(), top)
	}
	ftop := f.TopV()
	var g cnf.CNF
	t := 0
	switch r.Intn(4) {
	case 0:
		g = f.Negate()
	case 1:
		t = r.Intn(ftop + 1)
		g = f.Negate(t)
	default:
		t = ftop + r.Intn(7)
		g = f.Negate(t)
	}
	what += fmt.Sprintf(" top %d negated with %d", ftop, t)
	if ftop > t {
		t = ftop
	}
	gs, gc := g.Clauses()
	what += fmt.Sprintf(": result semantic %v consistency %v: ", gs, gc)
	if e := checkNumbers(g, nil); e != "" {
		return what + e
	}
	if g.TopV() < t {
		return what + fmt.Sprintf("top variable %d below %d", g.TopV(), t)
	}
	if !contains(gc, c) {
		return what + "a consistency clause is lost"
	}
	old := map[int]bool{}
	for _, cs := range [][]cnf.Clause{s, c} {
		for _, x := range cs {
			for _, l := range x {
				old[l], old[-l] = true, true
			}
		}
	}
	for _, cs := range [][]cnf.Clause{gs, gc} {
		for _, x := range cs {
			for _, l := range x {
				if l < 0 {
					l = -l
				}
				if !old[l] && l <= t {
					return what + fmt.Sprintf("new variable %d not above %d", l, t)
				}
			}
		}
	}
	sol := newSat(gc)
	both := newSat(gc, gs)
	for a := 0; a < 1<<nv; a++ {
		val := func(v int) bool { return a>>(v-1)&1 == 1 }
		var as []int
		for v := 1; v <= nv; v++ {
			if val(v) {
				as = append(as, v)
			} else {
				as = append(as, -v)
			}
		}
		if !holds(c, val) {
			continue
		}
		if sol.solve(as...) != satYes {
			return what + fmt.Sprintf("assignment %v does not extend to the new variables", as)
		}
		truth := holds(s, val)
		if got := both.solve(as...) == satYes; got == truth {
			return what + fmt.Sprintf("under %v the formula is %v and its negation is %v", as, truth, got)
		}
		if !truth {
			for _, x := range gs {
				neg := append([]int{}, as...)
				taut := false
				for _, l := range x {
					neg = append(neg, -l)
					for _, k := range x {
						taut = taut || k == -l
					}
				}
				if !taut && sol.solve(neg...) == satYes {
					return what + fmt.Sprintf("under %v the negation is not determined", as)
				}
			}
		}
		st.nontrivial++
	}
	// a second negation
	h := g.Negate(t + r.Intn(3))
	if e := checkNumbers(h, nil); e != "" {
		return what + "negated again: " + e
	}
	hs, hc := h.Clauses()
	if !contains(hc, c) {
		return what + "negated again: a consistency clause is lost"
	}
	hh := newSat(hs, hc)
	for a := 0; a < 1<<nv; a++ {
		val := func(v int) bool { return a>>(v-1)&1 == 1 }
		if !holds(c, val) {
			continue
		}
		var as []int
		for v := 1; v <= nv; v++ {
			if val(v) {
				as = append(as, v)
			} else {
				as = append(as, -v)
			}
		}
		if (hh.solve(as...) == satYes) != holds(s, val) {
			return what + fmt.Sprintf("negated twice is not the formula under %v", as)
		}
	}
	st.sample = what
	return ""
}

func joinOpsCase(r *rand.Rand, idx int, st *stats) string {
	f, s, c, what := rCNF(r, 1+r.Intn(60))
	g, s2, c2, what2 := rCNF(r, 1+r.Intn(60))
	top := f.TopV()
	if g.TopV() > top {
		top = g.TopV()
	}
	check := func(op string, h cnf.CNF, ws, wc []cnf.Clause) string {
		hs, hc := h.Clauses()
		if multiset(hs) != multiset(ws) || multiset(hc) != multiset(wc) {
			return fmt.Sprintf("%s of %s and %s gives semantic %v consistency %v", op, what, what2, hs, hc)
		}
		if e := checkNumbers(h, nil); e != "" {
			return fmt.Sprintf("%s of %s and %s: %s", op, what, what2, e)
		}
		if h.TopV() < f.TopV() {
			return fmt.Sprintf("%s of %s and %s lowers the top variable", op, what, what2)
		}
		return ""
	}
	cat := func(a, b []cnf.Clause) []cnf.Clause { return append(append([]cnf.Clause{}, a...), b...) }
	if e := check("conjunction", f.Conjunction(g), cat(s, s2), cat(c, c2)); e != "" {
		return e
	}
	if h := f.Conjunction(g); h.TopV() < top {
		return fmt.Sprintf("conjunction of %s and %s lowers the top variable", what, what2)
	}
	if e := check("semantic extension", f.AppendSemantics(copyCls(s2)...), cat(s, s2), c); e != "" {
		return e
	}
	if e := check("consistency extension", f.AppendConsistency(copyCls(c2)...), s, cat(c, c2)); e != "" {
		return e
	}
	if e := check("building", cnf.FromClauses(copyCls(s2)), s2, nil); e != "" && f.TopV() == 0 {
		return e
	}
	n := f.Negate(top)
	if r.Intn(2) == 0 {
		ns, nc := n.Clauses()
		ns, nc = copyCls(ns), copyCls(nc)
		h := n.Conjunction(g)
		hs, hc := h.Clauses()
		if multiset(hs) != multiset(ns, s2) || multiset(hc) != multiset(nc, c2) {
			return fmt.Sprintf("conjunction of a negation of %s and %s gives %v %v", what, what2, hs, hc)
		}
		if e := checkNumbers(h, nil); e != "" {
			return "conjunction with a negation: " + e
		}
		if h.TopV() < n.TopV() || h.TopV() < g.TopV() {
			return "conjunction with a negation lowers the top variable"
		}
	}
	triv := len(s)+len(c) == 0
	if f.TriviallyTrue() != triv {
		return what + ": TriviallyTrue wrong"
	}
	emp := false
	for _, cs := range [][]cnf.Clause{s, c} {
		for _, x := range cs {
			emp = emp || len(x) == 0
		}
	}
	if f.TriviallyFalse() != emp {
		return what + ": TriviallyFalse wrong"
	}
	st.nontrivial++
	st.sample = what + " with " + what2
	return ""
}

// ---------------------------------------------------------------- DIMACS

func dimacs(top int, s, c []cnf.Clause) string {
	var b strings.Builder
	fmt.Fprintf(&b, "p cnf %d %d\n", top, len(s)+len(c))
	for _, cs := range [][]cnf.Clause{s, c} {
		for _, x := range cs {
			for _, l := range x {
				b.WriteString(strconv.Itoa(l) + " ")
			}
			b.WriteString("0\n")
		}
	}
	return b.String()
}

// parseDimacs reads the text as a DIMACS reader would.
func parseDimacs(t string) (nv, nc int, cls []cnf.Clause, err string) {
	lines := strings.Split(t, "\n")
	if len(lines) == 0 || !strings.HasPrefix(lines[0], "p cnf ") {
		return 0, 0, nil, "no header"
	}
	if n, e := fmt.Sscanf(lines[0], "p cnf %d %d", &nv, &nc); n != 2 || e != nil || len(strings.Fields(lines[0])) != 4 {
		return 0, 0, nil, "bad header " + lines[0]
	}
	if !strings.HasSuffix(t, "\n") {
		return 0, 0, nil, "last line not terminated"
	}
	for _, l := range lines[1 : len(lines)-1] {
		x := cnf.Clause{}
		fs := strings.Fields(l)
		if len(fs) == 0 || fs[len(fs)-1] != "0" {
			return 0, 0, nil, "clause line " + strconv.Quote(l)
		}
		for _, w := range fs[:len(fs)-1] {
			k, e := strconv.Atoi(w)
			if e != nil || k == 0 {
				return 0, 0, nil, "clause line " + strconv.Quote(l)
			}
			x = append(x, k)
		}
		cls = append(cls, x)
	}
	return nv, nc, cls, ""
}

func dimacsCase(r *rand.Rand, idx int, st *stats) string {
	nv := []int{1, 3, 12, 120, 100000}[r.Intn(5)]
	f, s, c, what := rCNF(r, nv)
	if r.Intn(3) == 0 {
		f = f.Negate(f.TopV() + r.Intn(5))
		s, c = f.Clauses()
		s, c = copyCls(s), copyCls(c)
		what = fmt.Sprintf("semantic %v consistency %v", s, c)
	}
	if r.Intn(300) == 0 { // a formula much longer than usual
		for k := 0; k < 4000; k++ {
			s = append(s, rClause(r, nv))
		}
		f = cnf.FromClauses(copyCls(s)).AppendConsistency(copyCls(c)...)
		what = "a formula of 4000 clauses"
	}
	got := string(f.ToBytes())
	n, k, cls, e := parseDimacs(got)
	if e != "" {
		return what + ": " + e + " in " + strconv.Quote(clipS(got))
	}
	if n != f.TopV() || k != len(s)+len(c) {
		return fmt.Sprintf("%s: header %d %d, top variable %d, %d clauses", what, n, k, f.TopV(), len(s)+len(c))
	}
	if multiset(cls) != multiset(s, c) {
		return what + ": clauses differ: " + strconv.Quote(clipS(got))
	}
	p := filepath.Join(scratchDir(), fmt.Sprintf("d%d.cnf", r.Intn(4)))
	if r.Intn(2) == 0 {
		os.WriteFile(p, []byte(strings.Repeat("old content 0\n", r.Intn(40))), 0o644)
	}
	if err := f.ToFile(p); err != nil {
		return what + ": ToFile: " + err.Error()
	}
	b, err := os.ReadFile(p)
	if err != nil || string(b) != got {
		return what + ": ToFile wrote " + strconv.Quote(clipS(string(b))) + " and ToBytes gives " + strconv.Quote(clipS(got))
	}
	if f.ToFile(filepath.Join(scratchDir(), "missing", "f.cnf")) == nil {
		return "no error for a missing directory"
	}
	if f.ToFile(scratchDir()) == nil {
		return "no error when the path is a directory"
	}
	if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeDevice != 0 {
		if f.ToFile("/dev/full") == nil {
			return what + ": no error on a full device"
		}
	}
	if r.Intn(20) == 0 {
		if m := limitedWrite(f, what, len(got), r); m != "" {
			return m
		}
	}
	st.nontrivial++
	st.sample = what
	return ""
}

// limitedWrite lets the file system refuse bytes beyond a limit.
func init() { signal.Ignore(syscall.SIGXFSZ) }

func limitedWrite(f cnf.CNF, what string, n int, r *rand.Rand) string {
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return ""
	}
	lim := r.Intn(n)
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(lim), Max: old.Max}) != nil {
		return ""
	}
	err := f.ToFile(filepath.Join(scratchDir(), "limited.cnf"))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		return fmt.Sprintf("%s: no error although only %d of %d bytes could be written", what, lim, n)
	}
	return ""
}

func clipS(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// ---------------------------------------------------------------- operands

type snap struct {
	f      cnf.CNF
	s, c   []cnf.Clause // as returned by Clauses
	ws, wc []cnf.Clause // deep copies
	bytes  string
	top    int
	raw    []cnf.Clause // slices handed in, with spare capacity filled by sentinels
	rawC   []cnf.Clause
	outer  [][]cnf.Clause // clause lists handed in, with their spare capacity
	outerC []string
}

const sentinel = 77777

// spare returns the clause in storage with sentinels behind it.
func spare(r *rand.Rand, c cnf.Clause) cnf.Clause {
	k := r.Intn(4)
	b := make(cnf.Clause, len(c), len(c)+k)
	copy(b, c)
	t := b[:cap(b)]
	for i := len(c); i < len(t); i++ {
		t[i] = sentinel
	}
	return b
}

func whole(c cnf.Clause) cnf.Clause { return append(cnf.Clause{}, c[:cap(c)]...) }

func mkSnap(r *rand.Rand, nv int, outerSpare bool) *snap {
	p := &snap{}
	mk := func(cs []cnf.Clause) []cnf.Clause {
		k := 0
		if outerSpare {
			k = r.Intn(4)
		}
		out := make([]cnf.Clause, 0, len(cs)+k)
		for _, c := range cs {
			out = append(out, spare(r, c))
		}
		t := out[:cap(out)]
		for i := len(out); i < len(t); i++ {
			t[i] = cnf.Clause{sentinel}
		}
		p.outer = append(p.outer, t)
		p.outerC = append(p.outerC, fmt.Sprint(t))
		return out
	}
	s, c := mk(rClauses(r, nv)), mk(rClauses(r, nv))
	p.raw = append(append([]cnf.Clause{}, s...), c...)
	for _, x := range p.raw {
		p.rawC = append(p.rawC, whole(x))
	}
	if r.Intn(2) == 0 {
		p.f = cnf.FromClauses(s)
	} else {
		p.f = cnf.TrueCNF.AppendSemantics(s...)
	}
	p.f = p.f.AppendConsistency(c...)
	p.take()
	return p
}

func (p *snap) take() {
	p.s, p.c = p.f.Clauses()
	p.ws, p.wc = copyCls(p.s), copyCls(p.c)
	p.bytes = string(p.f.ToBytes())
	p.top = p.f.TopV()
}

func (p *snap) changed() string {
	s, c := p.f.Clauses()
	if fmt.Sprint(s) != fmt.Sprint(p.ws) || fmt.Sprint(c) != fmt.Sprint(p.wc) {
		return fmt.Sprintf("clauses were %v %v and are %v %v", p.ws, p.wc, s, c)
	}
	if fmt.Sprint(p.s) != fmt.Sprint(p.ws) || fmt.Sprint(p.c) != fmt.Sprint(p.wc) {
		return fmt.Sprintf("the returned clause lists were %v %v and are %v %v", p.ws, p.wc, p.s, p.c)
	}
	if p.f.TopV() != p.top {
		return fmt.Sprintf("top variable was %d and is %d", p.top, p.f.TopV())
	}
	if string(p.f.ToBytes()) != p.bytes {
		return "the DIMACS text changed"
	}
	for i, x := range p.outer {
		if fmt.Sprint(x) != p.outerC[i] {
			return fmt.Sprintf("storage of a clause list passed in was %v and is %v", p.outerC[i], x)
		}
	}
	for i, x := range p.raw {
		if fmt.Sprint(whole(x)) != fmt.Sprint(p.rawC[i]) {
			return fmt.Sprintf("storage of a clause passed in was %v and is %v", p.rawC[i], whole(x))
		}
	}
	return ""
}

func intactCase(r *rand.Rand, idx int, st *stats) string {
	nv := 1 + r.Intn(9)
	outer := r.Intn(2) == 0
	var ps []*snap
	for i := 0; i < 3; i++ {
		ps = append(ps, mkSnap(r, nv, outer))
	}
	trail := ""
	ck := func(op string) string {
		trail += " " + op
		for i, p := range ps {
			if m := p.changed(); m != "" {
				return fmt.Sprintf("after%s: operand %d: %s", trail, i, m)
			}
		}
		if s, c := cnf.TrueCNF.Clauses(); len(s)+len(c) != 0 || cnf.TrueCNF.TopV() != 0 {
			return "after" + trail + ": TrueCNF is modified"
		}
		if s, c := cnf.FalseCNF.Clauses(); len(s) != 1 || len(s[0]) != 0 || len(c) != 0 || cnf.FalseCNF.TopV() != 0 {
			return "after" + trail + ": FalseCNF is modified"
		}
		if len(cnf.NegClauses) != 1 || len(cnf.NegClauses[0]) != 0 {
			return "after" + trail + ": NegClauses is modified"
		}
		return ""
	}
	what := fmt.Sprintf("operands %v %v | %v %v | %v %v ", ps[0].ws, ps[0].wc, ps[1].ws, ps[1].wc, ps[2].ws, ps[2].wc)
	for k := 0; k < 6; k++ {
		a, b := ps[0], ps[1+r.Intn(2)]
		if r.Intn(3) > 0 {
			a = ps[r.Intn(len(ps))]
			b = ps[r.Intn(len(ps))]
		}
		op := ""
		var res []cnf.CNF
		switch r.Intn(9) {
		case 0:
			op = "Negate"
			res = append(res, a.f.Negate())
		case 1:
			op = "Negate(t)"
			res = append(res, a.f.Negate(r.Intn(20)))
		case 2:
			op = "Conjunction"
			res = append(res, a.f.Conjunction(b.f))
		case 3:
			op = "AppendSemantics"
			res = append(res, a.f.AppendSemantics(b.s...))
		case 4:
			op = "AppendConsistency"
			res = append(res, a.f.AppendConsistency(b.c...))
		case 5:
			op = "ToBytes"
			b.f.ToBytes()
		case 6:
			op = "ToFile"
			b.f.ToFile(filepath.Join(scratchDir(), "i.cnf"))
		case 7:
			op = "constant formulas"
			t, f := cnf.TrueCNF, cnf.FalseCNF
			t.Negate(3)
			f.Negate(4)
			f.Conjunction(b.f)
			t.Conjunction(f)
			f.AppendConsistency(b.c...)
			t.AppendSemantics(b.s...)
			g := f.AppendSemantics(b.s...)
			g.Negate(9)
			f.Negate().Negate().Conjunction(t)
		case 8:
			op = "negation of an extension"
			g := a.f.AppendSemantics(b.s...)
			res = append(res, g, g.Negate(r.Intn(30)), g.Conjunction(b.f).Negate())
		}
		if m := ck(op); m != "" {
			return what + m
		}
		for _, f := range res {
			p := &snap{f: f}
			p.take()
			ps = append(ps, p)
		}
	}
	st.nontrivial++
	st.sample = what + "ops" + trail
	return ""
}

func init() {
	sec("negate", negateCase, "C10")
	sec("extend", joinOpsCase, "C10")
	sec("dimacs", dimacsCase, "C12")
	sec("intact", intactCase, "C18")
}
