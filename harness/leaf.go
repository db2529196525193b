package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// opnd is an operand: a variable or a constant (given directly or by a scope).
type opnd struct {
	v      qv
	isVar  bool
	id     string // constant identifier
	val    inst
	scoped bool // the value is supplied by an open scope
}

func (o opnd) c() query.QConst {
	if o.scoped {
		return query.QConst{ID: o.id}
	}
	return query.QConst{ID: o.id, Val: o.val}
}

func (o opnd) String() string {
	if o.isVar {
		return fmt.Sprintf("%q", string(o.v))
	}
	s := istr(o.val)
	if o.scoped {
		s = "scope " + o.id + "=" + s
	}
	return s
}

type leaf struct {
	kind string
	args []opnd
	pref []int
	lv   bool
	g    gens
}

func (l leaf) String() string {
	var as []string
	for _, a := range l.args {
		as = append(as, a.String())
	}
	s := l.kind + "(" + strings.Join(as, ", ") + ")"
	if l.kind == "hepr" {
		s += fmt.Sprintf("%v", l.pref)
	}
	if l.kind == "allcomp" {
		s += fmt.Sprintf("[%v]", l.lv)
	}
	return s
}

var arity = map[string]int{"sub": 2, "cons": 2, "full": 1, "lel": 2, "leh": 3, "hepr": 2, "node": 1, "allcomp": 1, "dfs": 1}

func (l leaf) build() encodable {
	a := l.args
	k := ""
	for _, o := range a {
		if o.isVar {
			k += "v"
		} else {
			k += "c"
		}
	}
	p := append([]int{}, l.pref...)
	if l.pref == nil {
		p = nil
	}
	switch l.kind + k {
	case "subvv":
		return subsumption.VarVar{I1: a[0].v, I2: a[1].v}
	case "subvc":
		return subsumption.VarConst{I1: a[0].v, I2: a[1].c()}
	case "subcv":
		return subsumption.ConstVar{I1: a[0].c(), I2: a[1].v}
	case "subcc":
		return subsumption.ConstConst{I1: a[0].c(), I2: a[1].c()}
	case "consvv":
		return cons.VarVar{I1: a[0].v, I2: a[1].v}
	case "consvc":
		return cons.VarConst{I1: a[0].v, I2: a[1].c()}
	case "conscv":
		return cons.ConstVar{I1: a[0].c(), I2: a[1].v}
	case "conscc":
		return cons.ConstConst{I1: a[0].c(), I2: a[1].c()}
	case "fullv":
		return full.Var{I: a[0].v}
	case "fullc":
		return full.Const{I: a[0].c()}
	case "lelvv":
		return lel.VarVar{I1: a[0].v, I2: a[1].v, CountVarGen: l.g.one("botc")}
	case "lelvc":
		return lel.VarConst{I1: a[0].v, I2: a[1].c(), CountVarGen: l.g.one("botc")}
	case "lelcv":
		return lel.ConstVar{I1: a[0].c(), I2: a[1].v, CountVarGen: l.g.one("botc")}
	case "lelcc":
		return lel.ConstConst{I1: a[0].c(), I2: a[1].c()}
	case "heprvv":
		return hepr.VarVar{I1: a[0].v, I2: a[1].v, Preference: p, FeaturePreferenceRankVarGen: l.g.pref()}
	case "heprvc":
		return hepr.VarConst{I1: a[0].v, I2: a[1].c(), Preference: p, FeaturePreferenceRankVarGen: l.g.pref()}
	case "heprcv":
		return hepr.ConstVar{I1: a[0].c(), I2: a[1].v, Preference: p, FeaturePreferenceRankVarGen: l.g.pref()}
	case "heprcc":
		return hepr.ConstConst{I1: a[0].c(), I2: a[1].c(), Preference: p}
	case "nodev":
		return isnode.Var{I: a[0].v, ReachNodeVarGen: l.g.one("reach")}
	case "nodec":
		return isnode.Const{I: a[0].c()}
	case "allcompv":
		return allcomp.Var{I: a[0].v, LeafValue: l.lv, ReachNodeVarGen: l.g.one("reach")}
	case "allcompc":
		return allcomp.Const{I: a[0].c(), LeafValue: l.lv}
	case "dfsv":
		return dfs.Var{I: a[0].v}
	case "dfsc":
		return dfs.Const{I: a[0].c()}
	}
	h, e := l.g.two("hdist"), l.g.two("eqf")
	switch l.kind + k {
	case "lehccc":
		return leh.ConstConstConst{I1: a[0].c(), I2: a[1].c(), I3: a[2].c()}
	case "lehccv":
		return leh.ConstConstVar{I1: a[0].c(), I2: a[1].c(), I3: a[2].v, HammingDistanceVarGen: h}
	case "lehcvc":
		return leh.ConstVarConst{I1: a[0].c(), I2: a[1].v, I3: a[2].c(), HammingDistanceVarGen: h}
	case "lehcvv":
		return leh.ConstVarVar{I1: a[0].c(), I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: h}
	case "lehvcc":
		return leh.VarConstConst{I1: a[0].v, I2: a[1].c(), I3: a[2].c(), HammingDistanceVarGen: h}
	case "lehvcv":
		return leh.VarConstVar{I1: a[0].v, I2: a[1].c(), I3: a[2].v, HammingDistanceVarGen: h, EqualFeatureVarGen: e}
	case "lehvvc":
		return leh.VarVarConst{I1: a[0].v, I2: a[1].v, I3: a[2].c(), HammingDistanceVarGen: h, EqualFeatureVarGen: e}
	case "lehvvv":
		return leh.VarVarVar{I1: a[0].v, I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: h, EqualFeatureVarGen: e}
	}
	panic("unknown kind " + l.kind + k)
}

func (l leaf) meaning(m model, x []inst) bool {
	switch l.kind {
	case "sub":
		return subsumed(x[0], x[1])
	case "cons":
		return consistent(x[0], x[1])
	case "full":
		return bots(x[0]) == 0
	case "lel":
		return bots(x[0]) >= bots(x[1])
	case "leh":
		return mLEH(x[0], x[1], x[2])
	case "hepr":
		return mHEPR(l.pref, x[0], x[1])
	case "node":
		return mNode(m, x[0])
	case "allcomp":
		return mAllComp(m, x[0], l.lv)
	case "dfs":
		return mDFS(m, x[0])
	}
	panic(l.kind)
}

func rPref(r *rand.Rand, dim int) []int {
	p := r.Perm(dim)
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []int{}
	case 2:
		return p[:1]
	case 3, 4:
		return p[:r.Intn(dim+1)]
	}
	return p
}

// consTarget prepares a context in which the scoped constants have their values.
func openScopes(r *rand.Rand, ctx query.QContext, args []opnd) {
	for _, a := range args {
		if a.scoped {
			ctx.AddScope(a.id)
			ctx.SetScope(r.Intn(5), a.val)
		}
	}
}

// leafCase checks one formula of the given kind under many assignments.
func leafCase(kind string, withTree bool) func(*rand.Rand, int, *stats) string {
	return func(r *rand.Rand, idx int, st *stats) string {
		dim := rDim(r)
		n := arity[kind]
		m := model{dim: dim}
		if withTree {
			if dim > 8 {
				dim = 1 + r.Intn(8)
				m.dim = dim
			}
			m.nodes = rTree(r, dim, 1+r.Intn(4))
		} else if r.Intn(2) == 0 {
			m.nodes = rTree(r, dim, 2)
		}
		l := leaf{kind: kind, lv: r.Intn(2) == 0, pref: rPref(r, dim), g: gens{sort: r.Intn(2) == 0}}
		mask := idx % (1 << n)
		base := rInst(r, dim)
		if kind == "leh" && r.Intn(4) > 0 {
			base = nearFull(r, base)
		}
		pick := func() inst {
			switch r.Intn(5) {
			case 0:
				return rInst(r, dim)
			case 1, 2:
				if kind == "leh" {
					return nearFull(r, base)
				}
				if withTree {
					ts := nodeInsts(dim, m.nodes)
					return near(r, ts[r.Intn(len(ts))].v)
				}
			}
			return near(r, base)
		}
		names := []qv{"x", "y", "z"}
		if r.Intn(4) == 0 {
			names = []qv{"b", "a", "ab"}
		}
		for i := 0; i < n; i++ {
			o := opnd{}
			if mask>>i&1 == 1 {
				o.isVar, o.v = true, names[i]
				if i > 0 && r.Intn(5) == 0 {
					o.v = names[r.Intn(i)]
				}
			} else {
				o.val = pick()
				switch r.Intn(3) {
				case 0:
					o.id, o.scoped = fmt.Sprintf("c%d", i), true
				case 1:
					o.id = fmt.Sprintf("k%d", i)
				}
			}
			l.args = append(l.args, o)
		}
		ctx := query.BasicQContext(m)
		switch r.Intn(3) { // a context that was used before
		case 0:
			ctx.UpdateTopV(r.Intn(40))
			ctx.CNFVar("other", 0, 1)
		case 1:
			for i := 0; i < dim; i++ {
				ctx.CNFVar("x", dim-1-i, 1)
			}
		}
		openScopes(r, ctx, l.args)
		if r.Intn(3) == 0 {
			for _, a := range l.args {
				if a.isVar {
					ctx.AddVar(a.v)
				}
			}
		}
		topv := ctx.TopV()
		what := fmt.Sprintf("dim %d %v pref %v nodes %v", dim, l, l.pref, m.nodes)
		f, err := l.build().Encoding(ctx)
		if err != nil {
			return what + ": valid input refused: " + err.Error()
		}
		if ctx.TopV() < topv {
			return what + ": context's top variable lowered"
		}
		if e := checkNumbers(f, ctx); e != "" {
			return what + ": " + e
		}
		if r.Intn(6) == 0 { // encoding again gives the same meaning
			g, err := l.build().Encoding(ctx)
			if err != nil {
				return what + ": second encoding: " + err.Error()
			}
			f = f.Conjunction(g)
		}
		sc, cc := f.Clauses()
		var vars []qv
		seen := map[qv]bool{}
		for _, a := range l.args {
			if a.isVar && !seen[a.v] {
				seen[a.v] = true
				vars = append(vars, a.v)
			}
		}
		total := pow3(dim * len(vars))
		lim := 40
		exh := total <= 81 || total <= 729 && r.Intn(8) == 0
		if exh {
			lim = total
		}
		for k := 0; k < lim; k++ {
			val := map[qv]inst{}
			code := k
			for _, v := range vars {
				x := make(inst, dim)
				if exh {
					for i := range x {
						x[i] = query.FeatV(code % 3)
						code /= 3
					}
				} else {
					x = pick()
				}
				val[v] = x
			}
			var xs []inst
			var as []int
			desc := ""
			for _, a := range l.args {
				if a.isVar {
					xs = append(xs, val[a.v])
				} else {
					xs = append(xs, a.val)
				}
			}
			for _, v := range vars {
				as = append(as, lits(ctx, ctx.ScopeVar(v), val[v])...)
				desc += fmt.Sprintf(" %s=%s", v, istr(val[v]))
			}
			want := l.meaning(m, xs)
			if e := checkMeaning(sc, cc, as, want); e != "" {
				return fmt.Sprintf("%s under%s: %s (semantic clauses %v)", what, desc, e, clip(sc))
			}
			if k == 0 {
				st.sample = fmt.Sprintf("%s under%s: %v", what, desc, want)
			}
		}
		if dim > 0 && lim > 0 {
			st.nontrivial++
		}
		return ""
	}
}

func clip(cs []cnf.Clause) string {
	s := fmt.Sprint(cs)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func init() {
	sec("sub", leafCase("sub", false), "C01")
	sec("cons", leafCase("cons", false), "C01")
	sec("full", leafCase("full", false), "C01")
	sec("lel", leafCase("lel", false), "C02")
	sec("leh", leafCase("leh", false), "C03")
	sec("hepr", leafCase("hepr", false), "C04")
	sec("node", leafCase("node", true), "C05")
	sec("allcomp", leafCase("allcomp", true), "C06")
	sec("dfs", leafCase("dfs", true), "C07")
}
