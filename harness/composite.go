package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// A formula tree with its meaning. Leaves are wrapped in probes that record
// under which names the context knows their operands.
type fnode struct {
	op   string // leaf, and, or, not, var, all, triv, err
	l    leaf
	kids []*fnode
	name string // variable (var) or constant identifier (all)
	b    bool
}

func (f *fnode) String() string {
	switch f.op {
	case "leaf":
		return f.l.String()
	case "triv":
		return fmt.Sprint(f.b)
	case "err":
		return "ERR"
	}
	var ks []string
	for _, k := range f.kids {
		ks = append(ks, k.String())
	}
	return f.op + f.name + "(" + strings.Join(ks, ", ") + ")"
}

type rec struct {
	vars map[string]qv // identity -> scoped name
	bad  string
}

// identity of a variable: its name and the values of the quantified constants
// in force where it was introduced.
func identity(v qv, quants []string, vals map[string]inst) string {
	s := string(v)
	for _, q := range quants {
		s += "|" + q + "=" + istr(vals[q])
	}
	return s
}

type probe struct {
	l      leaf
	scopes map[qv][]string // variable -> quantifiers open where it was introduced
	quants []string
	rc     *rec
}

func (p probe) Encoding(ctx query.QContext) (cnf.CNF, error) {
	vals := map[string]inst{}
	for _, q := range p.quants {
		c, ok := ctx.ScopeConst(query.QConst{ID: q})
		if !ok {
			p.rc.bad = "constant " + q + " is not scoped inside its quantifier"
		}
		vals[q] = append(inst{}, c.Val...)
	}
	for _, a := range p.l.args {
		if a.isVar {
			id := identity(a.v, p.scopes[a.v], vals)
			n := ctx.ScopeVar(a.v)
			if o, ok := p.rc.vars[id]; ok && o != n {
				p.rc.bad = fmt.Sprintf("variable %q has two names %q and %q", id, o, n)
			}
			for k, o := range p.rc.vars {
				if o == n && k != id {
					p.rc.bad = fmt.Sprintf("variables %q and %q share the name %q", id, k, n)
				}
			}
			p.rc.vars[id] = n
		}
	}
	return p.l.build().Encoding(ctx)
}

type trivial bool

func (t trivial) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if t {
		return cnf.TrueCNF, nil
	}
	return cnf.FalseCNF, nil
}

var errProbe = errors.New("probe error")

type failing struct{}

func (failing) Encoding(ctx query.QContext) (cnf.CNF, error) { return cnf.CNF{}, errProbe }

func (f *fnode) build(rc *rec, scopes map[qv][]string, quants []string) logop.LogOpQ {
	switch f.op {
	case "leaf":
		return probe{f.l, scopes, quants, rc}
	case "triv":
		return trivial(f.b)
	case "err":
		return failing{}
	case "not":
		return logop.Not{Q: f.kids[0].build(rc, scopes, quants)}
	case "and":
		return logop.And{Q1: f.kids[0].build(rc, scopes, quants), Q2: f.kids[1].build(rc, scopes, quants)}
	case "or":
		return logop.Or{Q1: f.kids[0].build(rc, scopes, quants), Q2: f.kids[1].build(rc, scopes, quants)}
	case "var":
		s2 := map[qv][]string{}
		for k, v := range scopes {
			s2[k] = v
		}
		s2[qv(f.name)] = append([]string{}, quants...)
		return logop.WithVar{I: qv(f.name), Q: f.kids[0].build(rc, s2, quants)}
	case "all":
		return logop.ForAllGuarded{I: query.QConst{ID: f.name}, Q: f.kids[0].build(rc, scopes, append(append([]string{}, quants...), f.name))}
	}
	panic(f.op)
}

func (f *fnode) eval(m model, rc *rec, val map[qv]inst, scopes map[qv][]string, quants []string, qval map[string]inst) bool {
	switch f.op {
	case "triv":
		return f.b
	case "leaf":
		var xs []inst
		for _, a := range f.l.args {
			if a.isVar {
				xs = append(xs, val[rc.vars[identity(a.v, scopes[a.v], qval)]])
			} else if v, ok := qval[a.id]; ok && a.scoped {
				xs = append(xs, v)
			} else {
				xs = append(xs, a.val)
			}
		}
		return f.l.meaning(m, xs)
	case "not":
		return !f.kids[0].eval(m, rc, val, scopes, quants, qval)
	case "and":
		a := f.kids[0].eval(m, rc, val, scopes, quants, qval)
		return f.kids[1].eval(m, rc, val, scopes, quants, qval) && a
	case "or":
		a := f.kids[0].eval(m, rc, val, scopes, quants, qval)
		return f.kids[1].eval(m, rc, val, scopes, quants, qval) || a
	case "var":
		s2 := map[qv][]string{}
		for k, v := range scopes {
			s2[k] = v
		}
		s2[qv(f.name)] = append([]string{}, quants...)
		return f.kids[0].eval(m, rc, val, s2, quants, qval)
	case "all":
		res := true
		for _, t := range nodeInsts(m.dim, m.nodes) {
			q2 := map[string]inst{f.name: t.v}
			for k, v := range qval {
				if k != f.name {
					q2[k] = v
				}
			}
			if !f.kids[0].eval(m, rc, val, scopes, append(append([]string{}, quants...), f.name), q2) {
				res = false
			}
		}
		return res
	}
	panic(f.op)
}

type fgen struct {
	r      *rand.Rand
	m      model
	kinds  []string
	nall   int
	nvar   int
	maxAll int
	g      []gens
	pool   []inst
}

func (g *fgen) leaf(vars []qv, quants []string) *fnode {
	r := g.r
	k := g.kinds[r.Intn(len(g.kinds))]
	l := leaf{kind: k, lv: r.Intn(2) == 0, pref: rPref(r, g.m.dim), g: g.g[r.Intn(len(g.g))]}
	for i := 0; i < arity[k]; i++ {
		o := opnd{}
		switch {
		case len(vars) > 0 && r.Intn(3) > 0:
			o.isVar, o.v = true, vars[r.Intn(len(vars))]
		case len(quants) > 0 && r.Intn(3) > 0:
			o.scoped, o.id = true, quants[r.Intn(len(quants))]
			o.val = make(inst, g.m.dim)
		default:
			o.val = g.pool[r.Intn(len(g.pool))]
			if r.Intn(3) == 0 {
				o.id = "free"
			}
		}
		l.args = append(l.args, o)
	}
	return &fnode{op: "leaf", l: l}
}

func (g *fgen) gen(depth int, vars []qv, quants []string) *fnode {
	r := g.r
	if depth <= 0 || r.Intn(7) == 0 {
		if r.Intn(8) == 0 {
			return &fnode{op: "triv", b: r.Intn(2) == 0}
		}
		return g.leaf(vars, quants)
	}
	switch r.Intn(8) {
	case 0, 1:
		return &fnode{op: "not", kids: []*fnode{g.gen(depth-1, vars, quants)}}
	case 2, 3:
		return &fnode{op: "and", kids: []*fnode{g.gen(depth-1, vars, quants), g.gen(depth-1, vars, quants)}}
	case 4, 5:
		return &fnode{op: "or", kids: []*fnode{g.gen(depth-1, vars, quants), g.gen(depth-1, vars, quants)}}
	case 6:
		if g.nvar < 4 {
			g.nvar++
			v := fmt.Sprintf("w%d", g.nvar)
			return &fnode{op: "var", name: v, kids: []*fnode{g.gen(depth-1, append(append([]qv{}, vars...), qv(v)), quants)}}
		}
	case 7:
		if g.nall < g.maxAll {
			g.nall++
			q := fmt.Sprintf("q%d", g.nall)
			return &fnode{op: "all", name: q, kids: []*fnode{g.gen(depth-1, vars, append(append([]string{}, quants...), q))}}
		}
	}
	return g.leaf(vars, quants)
}

func newGen(r *rand.Rand, dim int, kinds []string, maxAll int) *fgen {
	m := model{dim: dim, nodes: rTree(r, dim, 1+r.Intn(3))}
	g := &fgen{r: r, m: m, kinds: kinds, maxAll: maxAll, g: []gens{{}}}
	for i := 0; i < 3; i++ {
		g.pool = append(g.pool, rInst(r, dim))
	}
	for _, t := range nodeInsts(dim, m.nodes) {
		g.pool = append(g.pool, t.v)
	}
	return g
}

func rVals(r *rand.Rand, g *fgen, rc *rec) map[qv]inst {
	val := map[qv]inst{}
	for _, k := range sortedKeys(rc.vars) {
		if r.Intn(2) == 0 {
			val[rc.vars[k]] = near(r, g.pool[r.Intn(len(g.pool))])
		} else {
			val[rc.vars[k]] = rInst(r, g.m.dim)
		}
	}
	return val
}

func scopeDepth(ctx query.QContext) int {
	n := 0
	for ctx.PopScope() == nil {
		n++
	}
	return n
}

func compositeCase(kinds []string, maxAll int) func(*rand.Rand, int, *stats) string {
	return func(r *rand.Rand, idx int, st *stats) string {
		dim := 1 + r.Intn(3)
		if r.Intn(10) == 0 {
			dim = 4 + r.Intn(3)
		}
		g := newGen(r, dim, kinds, maxAll)
		top := []qv{"x", "y"}[:1+r.Intn(2)]
		f := g.gen(1+r.Intn(4), top, nil)
		if maxAll > 0 && g.nall == 0 {
			g.nall = 1
			f = &fnode{op: "all", name: "q1", kids: []*fnode{g.gen(2, top, []string{"q1"})}}
		}
		var forms []*fnode
		for i := len(top) - 1; i >= 0; i-- {
			f = &fnode{op: "var", name: string(top[i]), kids: []*fnode{f}}
		}
		forms = append(forms, f)
		ctx := query.BasicQContext(g.m)
		what := fmt.Sprintf("dim %d nodes %v formula %v", dim, g.m.nodes, f)
		pre := map[int]bool{}
		for i := r.Intn(4); i > 0; i-- {
			pre[ctx.CNFVar("pre", i, 0)] = true
		}
		if r.Intn(3) == 0 {
			ctx.UpdateTopV(ctx.TopV() + r.Intn(9))
		}
		// a context that was already used for another formula
		used := r.Intn(3) == 0
		var ocs, occ []cnf.Clause
		if used {
			o := newGen(r, dim, kinds, 0)
			o.m, o.nvar = g.m, 4
			of := &fnode{op: "var", name: "x", kids: []*fnode{o.gen(2, []qv{"x"}, nil)}}
			e, err := of.build(&rec{vars: map[string]qv{}}, map[qv][]string{}, nil).Encoding(ctx)
			if err != nil {
				return what + ": earlier formula " + of.String() + ": " + err.Error()
			}
			ocs, occ = e.Clauses()
			what += " after " + of.String()
		}
		_ = ocs
		rc := &rec{vars: map[string]qv{}}
		top0 := ctx.TopV()
		known := map[int]bool{}
		for k := range pre {
			known[k] = true
		}
		e, err := f.build(rc, map[qv][]string{}, nil).Encoding(ctx)
		if err != nil {
			return what + ": valid formula refused: " + err.Error()
		}
		if rc.bad != "" {
			return what + ": " + rc.bad
		}
		if ctx.TopV() < top0 {
			return what + ": context's top variable lowered"
		}
		if m := checkNumbers(e, ctx); m != "" {
			return what + ": " + m
		}
		sc, cc := e.Clauses()
		for _, cs := range [][]cnf.Clause{sc, cc} {
			for _, c := range cs {
				for _, l := range c {
					if pre[l] || pre[-l] {
						return fmt.Sprintf("%s: variable %d of the context is used by clause %v", what, l, c)
					}
				}
			}
		}
		t1 := ctx.TopV()
		if n := ctx.CNFVar("later", 0, 0); n <= t1 {
			return what + ": a later variable reuses a number"
		}
		cc = append(append([]cnf.Clause{}, cc...), occ...)
		// every introduced top variable takes exactly one value per feature
		if r.Intn(4) == 0 {
			s := newSat(cc)
			for _, v := range top {
				for i := 0; i < dim; i++ {
					b, z, o := ctx.CNFVar(v, i, 0), ctx.CNFVar(v, i, 1), ctx.CNFVar(v, i, 2)
					for _, as := range [][]int{{b, z}, {b, o}, {z, o}, {-b, -z, -o}} {
						if s.solve(as...) == satYes {
							return fmt.Sprintf("%s: feature %d of %s does not have exactly one value", what, i, v)
						}
					}
				}
			}
		}
		for k := 0; k < 12; k++ {
			val := rVals(r, g, rc)
			var as []int
			desc := ""
			for _, id := range sortedKeys(rc.vars) {
				n := rc.vars[id]
				as = append(as, lits(ctx, n, val[n])...)
				desc += fmt.Sprintf(" %s=%s", id, istr(val[n]))
			}
			want := f.eval(g.m, rc, val, map[qv][]string{}, nil, map[string]inst{})
			if m := checkMeaning(sc, cc, as, want); m != "" {
				return fmt.Sprintf("%s under%s: %s", what, desc, m)
			}
			if k == 0 {
				st.sample = what + " under" + desc
			}
		}
		if d := scopeDepth(ctx); d != 0 {
			return fmt.Sprintf("%s: %d scopes left open", what, d)
		}
		st.nontrivial++
		return ""
	}
}

// errCase: an operand's error is reported whatever surrounds it, and the scope
// nesting is restored.
func errCase(r *rand.Rand, idx int, st *stats) string {
	dim := 1 + r.Intn(3)
	g := newGen(r, dim, []string{"sub", "full"}, 2)
	f := g.gen(1+r.Intn(3), []qv{"x"}, nil)
	// replace a random position by a failing operand
	var slots []**fnode
	var walk func(p **fnode)
	walk = func(p **fnode) {
		slots = append(slots, p)
		for i := range (*p).kids {
			walk(&(*p).kids[i])
		}
	}
	walk(&f)
	*slots[r.Intn(len(slots))] = &fnode{op: "err"}
	ctx := query.BasicQContext(g.m)
	open := r.Intn(3)
	for i := 0; i < open; i++ {
		ctx.AddScope(fmt.Sprintf("outer%d", i))
		ctx.SetScope(0, make(inst, dim))
	}
	e, err := f.build(&rec{vars: map[string]qv{}}, map[qv][]string{}, nil).Encoding(ctx)
	what := fmt.Sprintf("nodes %v formula %v", g.m.nodes, f)
	if err == nil {
		return what + ": the operand's error is lost"
	}
	if !errors.Is(err, errProbe) {
		return what + ": the operand's error is not in the chain: " + err.Error()
	}
	if sc, cc := e.Clauses(); len(sc)+len(cc) > 0 {
		return what + ": a formula is returned together with the error"
	}
	if d := scopeDepth(ctx); d != open {
		return fmt.Sprintf("%s: scope nesting %d instead of %d after an error", what, d, open)
	}
	st.nontrivial++
	return ""
}

// joinCase: several formulas in one context do not disturb each other.
func joinCase(r *rand.Rand, idx int, st *stats) string {
	dim := 1 + r.Intn(3)
	if r.Intn(8) == 0 {
		dim = 11 + r.Intn(3)
	}
	kinds := []string{"sub", "cons", "full", "lel", "leh", "hepr", "node", "allcomp", "dfs"}
	g := newGen(r, dim, kinds, 0)
	g.g = []gens{{sort: r.Intn(2) == 0}}
	// preferences that are close to each other
	var prefs [][]int
	p := r.Perm(dim)
	prefs = append(prefs, p, p[:len(p)/2+1], r.Perm(dim))
	vars := []qv{"x", "y", "z"}[:1+r.Intn(3)]
	ctx := query.BasicQContext(g.m)
	scoped := r.Intn(3) == 0
	type enc struct {
		f      *fnode
		sc, cc []cnf.Clause
		depth  int
		rc     *rec
	}
	rc := &rec{vars: map[string]qv{}}
	n := 2 + r.Intn(3)
	var all []cnf.Clause
	var es []enc
	what := fmt.Sprintf("dim %d nodes %v:", dim, g.m.nodes)
	for i := 0; i < n; i++ {
		var f *fnode
		if scoped && i%2 == 1 {
			q := fmt.Sprintf("q%d", i)
			f = &fnode{op: "all", name: q, kids: []*fnode{g.leaf(vars, []string{q})}}
			if dim > 4 {
				f = g.leaf(vars, nil)
			}
		} else {
			f = g.leaf(vars, nil)
		}
		for _, x := range []*fnode{f} {
			for x.op != "leaf" {
				x = x.kids[0]
			}
			x.l.pref = prefs[r.Intn(len(prefs))]
			if r.Intn(2) == 0 && len(es) > 0 { // same operands, other kind
				y := es[r.Intn(len(es))].f
				if y.op == "leaf" && len(y.l.args) == len(x.l.args) {
					x.l.args = y.l.args
					if r.Intn(2) == 0 { // swapped
						x.l.args = append([]opnd{}, y.l.args...)
						for a, b := 0, len(x.l.args)-1; a < b; a, b = a+1, b-1 {
							x.l.args[a], x.l.args[b] = x.l.args[b], x.l.args[a]
						}
						f = x
					} else {
						f = x
					}
				}
			}
		}
		for _, a := range f.l.args {
			if a.scoped {
				f = g.leaf(vars, nil)
				for j := range f.l.args {
					f.l.args[j].scoped = false
				}
				break
			}
		}
		e, err := f.build(rc, map[qv][]string{}, nil).Encoding(ctx)
		if err != nil {
			return what + " " + f.String() + ": " + err.Error()
		}
		if rc.bad != "" {
			return what + " " + f.String() + ": " + rc.bad
		}
		sc, cc := e.Clauses()
		es = append(es, enc{f: f, sc: sc, cc: cc})
		all = append(all, cc...)
		what += " " + f.String()
		if r.Intn(3) == 0 { // auxiliary variables of a negation
			ng := e.Negate(ctx.TopV())
			ctx.UpdateTopV(ng.TopV())
			nsc, ncc := ng.Clauses()
			es = append(es, enc{f: &fnode{op: "not", kids: []*fnode{f}}, sc: nsc, cc: ncc})
			all = append(all, ncc...)
		}
	}
	for k := 0; k < 8; k++ {
		val := rVals(r, g, rc)
		for _, id := range sortedKeys(rc.vars) {
			if r.Intn(3) == 0 {
				val[rc.vars[id]] = nearFull(r, val[rc.vars[id]])
			}
		}
		var as []int
		desc := ""
		for _, id := range sortedKeys(rc.vars) {
			nm := rc.vars[id]
			as = append(as, lits(ctx, nm, val[nm])...)
			desc += fmt.Sprintf(" %s=%s", id, istr(val[nm]))
		}
		for _, e := range es {
			want := e.f.eval(g.m, rc, val, map[qv][]string{}, nil, map[string]inst{})
			if m := checkMeaning(e.sc, all, as, want); m != "" {
				return fmt.Sprintf("%s: in the common context, %v under%s: %s", what, e.f, desc, m)
			}
		}
		if k == 0 {
			st.sample = what + " under" + desc
		}
	}
	st.nontrivial++
	return ""
}

// withVarAgain: introducing the same variable in formulas of one context gives
// each of the formulas the consistency clauses.
func withVarAgain(r *rand.Rand, idx int, st *stats) string {
	dim := 1 + r.Intn(4)
	ctx := query.BasicQContext(model{dim: dim})
	if r.Intn(2) == 0 {
		for i := 0; i < dim; i++ {
			ctx.CNFVar("x", r.Intn(dim), r.Intn(3))
		}
	}
	for k := 0; k < 3; k++ {
		e, err := logop.WithVar{I: "x", Q: trivial(true)}.Encoding(ctx)
		if err != nil {
			return err.Error()
		}
		sc, cc := e.Clauses()
		if len(sc) != 0 {
			return "WithVar over true has semantic clauses"
		}
		s := newSat(cc)
		for i := 0; i < dim; i++ {
			b, z, o := ctx.CNFVar("x", i, 0), ctx.CNFVar("x", i, 1), ctx.CNFVar("x", i, 2)
			for _, as := range [][]int{{b, z}, {b, o}, {z, o}, {-b, -z, -o}} {
				if s.solve(as...) == satYes {
					return fmt.Sprintf("encoding %d: feature %d of x (dim %d) does not have exactly one value", k, i, dim)
				}
			}
		}
		x := rInst(r, dim)
		if s.solve(lits(ctx, "x", x)...) != satYes {
			return "WithVar excludes " + istr(x)
		}
		if r.Intn(2) == 0 {
			ctx.Reset()
		}
	}
	st.nontrivial++
	return ""
}

func init() {
	base := []string{"sub", "cons", "full", "lel", "hepr", "node", "allcomp", "dfs"}
	sec("connectives", compositeCase(base, 0), "C08")
	sec("withvar", withVarAgain, "C08")
	sec("operand-errors", errCase, "C08", "C09")
	sec("guarded", compositeCase(append(base, "leh"), 2), "C09", "C13")
	sec("join", joinCase, "C19")
	sec("join-composite", compositeCase(append(base, "leh"), 1), "C19")
}
