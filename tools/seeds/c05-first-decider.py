ID="c05-first-decider"; PROP="C05"
NEEDS="a tree that decides one feature at two nodes, in different branches"
BREAKS="only the first node that decides a feature counts as deciding it, so nodes below the other ones are refused"
EDITS=[("query/predicates/isnode/var.go","""		if node.IsLeaf() {
			continue
		}

		fcl[""","""		if node.IsLeaf() || len(fcl[node.Feat]) > 1 {
			continue
		}

		fcl[""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
)

func main() {
	m := M{3, []query.Node{inner(1, 3, 1), inner(0, 2, 4), leaf(true), inner(0, 5, 6), leaf(false), leaf(true), leaf(false)}}
	is := map[string]bool{}
	for _, p := range paths(m) {
		is[p] = true
	}
	ctx := query.BasicQContext(m)
	f := encode("node", isnode.Var{I: "x", ReachNodeVarGen: gen1("r")}, ctx)
	for _, c := range all(3) {
		expect("node(x)", ctx, f, map[string]string{"x": c}, is[c])
	}
}
'''
