import re
src=open('/repo/query/extensions/allcomp/var.go').read()
i=src.index("	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})"); j=src.index("	return ncnf, nil")
ID="c19-shared-reach"; PROP="C19"
NEEDS="an instance variable used by a node formula and by an all-completions formula that are given the same generator"
BREAKS="both formulas number the reachability of a node alike although one follows undefined features and the other does not"
EDITS=[("query/extensions/allcomp/var.go",src[i:j],src[i:j].replace("svReach, 0,","svReach, 1,"))]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
)

func main() {
	m := M{2, []query.Node{inner(0, 1, 2), leaf(true), inner(1, 3, 4), leaf(true), leaf(false)}}
	ctx := query.BasicQContext(m)
	g := gen1("r")
	f1 := encode("node", isnode.Var{I: "x", ReachNodeVarGen: g}, ctx)
	f2 := encode("pos", allcomp.Var{I: "x", LeafValue: true, ReachNodeVarGen: g}, ctx)
	pos := func(c string) bool {
		ok := true
		for _, e := range all(2) {
			in := bots(e) == 0
			for i := range c {
				in = in && (c[i] == '_' || c[i] == e[i])
			}
			if in && !class(m, e) {
				ok = false
			}
		}
		return ok
	}
	isNode := map[string]bool{"__": true, "0_": true, "1_": true, "10": true, "11": true}
	for _, x := range all(2) {
		expect("node and positive", ctx, f1.Conjunction(f2), map[string]string{"x": x}, isNode[x] && pos(x))
	}
}
'''
