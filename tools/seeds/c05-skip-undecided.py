ID="c05-skip-undecided"; PROP="C05"
NEEDS="a constant that is undefined on a feature decided higher up and defined on one decided below it"
BREAKS="the walk goes on below a feature the instance does not define, so features that are not decided on its way count as decided"
EDITS=[("query/predicates/isnode/const.go","""		// A constant with a BOT value on a decided feature can not be a node.
		if sc.Val[node.Feat] == query.BOT {
			break
		}
""","""		// Nothing is decided about a feature with a BOT value.
		if sc.Val[node.Feat] == query.BOT {
			if node.ZChild < 0 || node.ZChild >= len(nodes) {
				break
			}
			node = nodes[node.ZChild]
			continue
		}
""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
)

func main() {
	m := M{3, []query.Node{inner(1, 3, 1), inner(0, 2, 4), leaf(true), inner(2, 5, 6), leaf(false), leaf(true), leaf(false)}}
	is := map[string]bool{}
	for _, p := range paths(m) {
		is[p] = true
	}
	for _, c := range all(3) {
		ctx := query.BasicQContext(m)
		f := encode("node", isnode.Const{I: con(c)}, ctx)
		expect("node("+c+")", ctx, f, nil, is[c])
	}
}
'''
