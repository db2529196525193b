package main

import (
	"fmt"
	"math/rand"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
)

func refused(what string, f encodable, ctx query.QContext) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("%s: panic: %v", what, p)
		}
	}()
	e, err := f.Encoding(ctx)
	if err == nil {
		return what + ": accepted"
	}
	if sc, cc := e.Clauses(); len(sc)+len(cc) > 0 {
		return what + ": a formula is returned together with the error"
	}
	return ""
}

var leafKinds = []string{"sub", "cons", "full", "lel", "leh", "hepr", "node", "allcomp", "dfs"}

func rArgs(r *rand.Rand, kind string, dim int, mask int) []opnd {
	var as []opnd
	for i := 0; i < arity[kind]; i++ {
		if mask>>i&1 == 1 {
			as = append(as, opnd{isVar: true, v: []qv{"x", "y", "z"}[i]})
		} else {
			o := opnd{val: rInst(r, dim)}
			switch r.Intn(3) {
			case 0:
				o.id, o.scoped = fmt.Sprintf("c%d", i), true
			case 1:
				o.id = fmt.Sprintf("k%d", i)
			}
			as = append(as, o)
		}
	}
	return as
}

func invalidCase(r *rand.Rand, idx int, st *stats) string {
	dim := rDim(r)
	kind := leafKinds[idx%len(leafKinds)]
	mask := (idx / len(leafKinds)) % (1 << arity[kind])
	m := model{dim: dim, nodes: rTree(r, dim, 3)}
	l := leaf{kind: kind, lv: r.Intn(2) == 0, pref: rPref(r, dim), args: rArgs(r, kind, dim, mask)}
	ctx := query.BasicQContext(m)
	st.nontrivial++
	what := fmt.Sprintf("dim %d nodes %v %v", dim, m.nodes, l)
	wrap := func(f encodable) encodable { // the same under connectives
		switch r.Intn(6) {
		case 0:
			return logop.Not{Q: f}
		case 1:
			return logop.And{Q1: trivial(true), Q2: f}
		case 2:
			return logop.Or{Q1: f, Q2: trivial(true)}
		case 3:
			return logop.WithVar{I: "x", Q: f}
		}
		return f
	}
	switch r.Intn(5) {
	case 0:
		return refused(what+" with a nil context", l.build(), nil)
	case 1: // wrong dimension of a constant
		var cs []int
		for i, a := range l.args {
			if !a.isVar {
				cs = append(cs, i)
			}
		}
		if len(cs) == 0 {
			return ""
		}
		i := cs[r.Intn(len(cs))]
		n := dim + 1 + r.Intn(2)
		if r.Intn(2) == 0 {
			n = r.Intn(dim)
		}
		l.args[i].val = rInst(r, n)
		if n == 0 && r.Intn(2) == 0 {
			l.args[i].val = nil
		}
		openScopes(r, ctx, l.args)
		return refused(fmt.Sprintf("dim %d nodes %v %v constant %d of %d features", dim, m.nodes, l, i, n), wrap(l.build()), ctx)
	case 2:
		if kind == "hepr" {
			p := r.Perm(dim)
			bad := ""
			switch r.Intn(4) {
			case 0:
				p = append(p[:r.Intn(dim+1)], dim+r.Intn(3))
				bad = "too large"
			case 1:
				p = append(p[:r.Intn(dim+1)], -1-r.Intn(3))
				bad = "negative"
			case 2:
				k := 1 + r.Intn(dim)
				p = append(p[:k:k], p[r.Intn(k)])
				bad = "repeated"
			case 3:
				k := 1 + r.Intn(dim)
				p = append([]int{p[k-1]}, p[:k]...)
				bad = "repeated"
			}
			if r.Intn(2) == 0 {
				r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
			}
			l.pref = p
			openScopes(r, ctx, l.args)
			return refused(fmt.Sprintf("dim %d %v (%s index)", dim, l, bad), wrap(l.build()), ctx)
		}
		if kind == "node" || kind == "allcomp" || kind == "dfs" {
			openScopes(r, ctx, l.args)
			empty := query.BasicQContext(model{dim: dim})
			openScopes(r, empty, l.args)
			return refused(fmt.Sprintf("dim %d %v over an empty model", dim, l), wrap(l.build()), empty)
		}
	case 3:
		// valid input is accepted
		openScopes(r, ctx, l.args)
		e, err := wrap(l.build()).Encoding(ctx)
		if err != nil {
			return what + ": valid input refused: " + err.Error()
		}
		return checkNumbers(e, nil)
	case 4: // broken trees
		var inner []int
		for i, n := range m.nodes {
			if !isLeaf(n) {
				inner = append(inner, i)
			}
		}
		if len(inner) == 0 {
			return ""
		}
		i := inner[r.Intn(len(inner))]
		ns := append([]query.Node{}, m.nodes...)
		bad := ""
		switch r.Intn(4) {
		case 0:
			ns[i].Feat = dim + r.Intn(3)
			bad = "feature"
		case 1:
			ns[i].Feat = -1 - r.Intn(3)
			bad = "feature"
		case 2:
			ns[i].ZChild = len(ns) + r.Intn(3)
			bad = "zero child"
		case 3:
			ns[i].OChild = len(ns) + r.Intn(3)
			bad = "one child"
		}
		bctx := query.BasicQContext(model{dim: dim, nodes: ns})
		what := fmt.Sprintf("dim %d nodes %v (%s of node %d out of range)", dim, ns, bad, i)
		if m := refused(what+" dfs.Var", dfs.Var{I: "x"}, bctx); m != "" {
			return m
		}
		if m := refused(what+" dfs.Const", dfs.Const{I: query.QConst{Val: rInst(r, dim)}}, bctx); m != "" {
			return m
		}
		d := 0
		bctx.AddScope("outer")
		if m := refused(what+" ForAllGuarded", logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: trivial(true)}, bctx); m != "" {
			return m
		}
		if d = scopeDepth(bctx); d != 1 {
			return fmt.Sprintf("%s: %d scopes open after the error", what, d)
		}
	}
	return ""
}

func nilCase(r *rand.Rand, idx int, st *stats) string {
	dim := 1 + r.Intn(4)
	m := model{dim: dim, nodes: rTree(r, dim, 2)}
	if r.Intn(4) == 0 {
		m.nodes = nil
	}
	ctx := query.BasicQContext(m)
	c := query.QConst{Val: rInst(r, dim)}
	fc := query.QConst{Val: nearFull(r, c.Val)}
	fd := query.QConst{Val: nearFull(r, c.Val)}
	p := rPref(r, dim)
	if len(p) == 0 {
		p = []int{0}
	}
	g := gens{}
	t := trivial(true)
	h, e := g.two("h"), g.two("e")
	cases := []struct {
		n string
		f encodable
	}{
		{"lel.VarVar", lel.VarVar{I1: "x", I2: "y"}},
		{"lel.VarConst", lel.VarConst{I1: "x", I2: c}},
		{"lel.ConstVar", lel.ConstVar{I1: c, I2: "x"}},
		{"hepr.VarVar", hepr.VarVar{I1: "x", I2: "y", Preference: p}},
		{"hepr.VarConst", hepr.VarConst{I1: "x", I2: c, Preference: p}},
		{"hepr.ConstVar", hepr.ConstVar{I1: c, I2: "x", Preference: p}},
		{"isnode.Var", isnode.Var{I: "x"}},
		{"allcomp.Var", allcomp.Var{I: "x"}},
		{"leh.ConstConstVar", leh.ConstConstVar{I1: fc, I2: fd, I3: "x"}},
		{"leh.ConstVarConst", leh.ConstVarConst{I1: fc, I2: "x", I3: fd}},
		{"leh.VarConstConst", leh.VarConstConst{I1: "x", I2: fc, I3: fd}},
		{"leh.ConstVarVar", leh.ConstVarVar{I1: fc, I2: "x", I3: "y"}},
		{"leh.VarConstVar/1", leh.VarConstVar{I1: "x", I2: fc, I3: "y", EqualFeatureVarGen: e}},
		{"leh.VarConstVar/2", leh.VarConstVar{I1: "x", I2: fc, I3: "y", HammingDistanceVarGen: h}},
		{"leh.VarVarConst/1", leh.VarVarConst{I1: "x", I2: "y", I3: fc, EqualFeatureVarGen: e}},
		{"leh.VarVarConst/2", leh.VarVarConst{I1: "x", I2: "y", I3: fc, HammingDistanceVarGen: h}},
		{"leh.VarVarVar/1", leh.VarVarVar{I1: "x", I2: "y", I3: "z", EqualFeatureVarGen: e}},
		{"leh.VarVarVar/2", leh.VarVarVar{I1: "x", I2: "y", I3: "z", HammingDistanceVarGen: h}},
		{"Not{nil}", logop.Not{}},
		{"And{nil,q}", logop.And{Q2: t}},
		{"And{q,nil}", logop.And{Q1: t}},
		{"And{nil,nil}", logop.And{}},
		{"Or{nil,q}", logop.Or{Q2: t}},
		{"Or{q,nil}", logop.Or{Q1: t}},
		{"Or{nil,nil}", logop.Or{}},
		{"WithVar{nil}", logop.WithVar{I: "x"}},
		{"ForAllGuarded{nil}", logop.ForAllGuarded{I: query.QConst{ID: "c"}}},
	}
	for _, k := range cases {
		if msg := refused(k.n+" without a part it needs", k.f, ctx); msg != "" {
			return fmt.Sprintf("dim %d: %s", dim, msg)
		}
	}
	for _, k := range []struct {
		n string
		f encodable
	}{
		{"Not", logop.Not{Q: t}},
		{"And", logop.And{Q1: t, Q2: t}},
		{"Or", logop.Or{Q1: t, Q2: t}},
		{"WithVar", logop.WithVar{I: "x", Q: t}},
		{"ForAllGuarded", logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: t}},
	} {
		if msg := refused(k.n+" with a nil context", k.f, nil); msg != "" {
			return msg
		}
	}
	ectx := query.BasicQContext(model{dim: dim})
	if msg := refused("ForAllGuarded over an empty model", logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: t}, ectx); msg != "" {
		return msg
	}
	if scopeDepth(ectx) != 0 {
		return "a scope stays open after an error on an empty model"
	}
	_ = cnf.TrueCNF
	st.nontrivial++
	return ""
}

func init() {
	sec("invalid", invalidCase, "C17")
	sec("nil-parts", nilCase, "C17")
}
