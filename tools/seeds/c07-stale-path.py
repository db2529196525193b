ID="c07-stale-path"; PROP="C07"
NEEDS="a tree with a node below the zero side that decides a feature which the leaves of the one side do not"
BREAKS="values stay set when the walk goes back up, so later leaves are given features their way does not decide"
EDITS=[("query/extensions/dfs/utils.go","""			cp = walk[cp].prev
			cv[nodes[cp].Feat] = query.BOT
""","""			// values are overwritten on the way down
			cp = walk[cp].prev
""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
)

func main() {
	m := M{3, []query.Node{inner(0, 1, 2), inner(1, 3, 4), leaf(false), leaf(true), leaf(false)}}
	same := func(c string) bool {
		for _, e := range all(3) {
			for _, g := range all(3) {
				ok := bots(e)+bots(g) == 0
				for i := range c {
					ok = ok && (c[i] == '_' || e[i] == g[i])
				}
				if ok && class(m, e) != class(m, g) {
					return false
				}
			}
		}
		return true
	}
	ctx := query.BasicQContext(m)
	f := encode("dfs", dfs.Var{I: "x"}, ctx)
	for _, c := range all(3) {
		expect("dfs(x)", ctx, f, map[string]string{"x": c}, same(c))
		ctx := query.BasicQContext(m)
		f := encode("dfs", dfs.Const{I: con(c)}, ctx)
		expect("dfs("+c+")", ctx, f, nil, same(c))
	}
}
'''
