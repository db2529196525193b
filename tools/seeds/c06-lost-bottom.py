ID="c06-lost-bottom"; PROP="C06"
NEEDS="an instance that is undefined on a feature the tree decides"
BREAKS="reaching a zero child requires the feature to be zero, although both children are reached when it is undefined: the reachability clauses cannot be completed"
EDITS=[("query/extensions/allcomp/var.go","""				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
				ctx.CNFVar(sv, node.Feat, int(query.BOT)),
""","""				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
)

func main() {
	m := M{3, []query.Node{inner(1, 3, 1), inner(0, 2, 4), leaf(true), inner(0, 5, 6), leaf(false), leaf(true), leaf(true)}}
	for _, v := range []bool{false, true} {
		ctx := query.BasicQContext(m)
		f := encode("allcomp", allcomp.Var{I: "x", LeafValue: v, ReachNodeVarGen: gen1("r")}, ctx)
		for _, c := range all(3) {
			want := true
			for _, e := range completions(c) {
				want = want && class(m, e) == v
			}
			expect("allcomp(x)", ctx, f, map[string]string{"x": c}, want)
		}
	}
}
'''
