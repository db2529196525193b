ID="c07-first-common"; PROP="C07"
NEEDS="two leaves of different classes that agree on the first feature both decide and differ on a later one"
BREAKS="the comparison of two leaves stops at the first feature both of them decide"
EDITS=[("query/extensions/dfs/const.go","""			l1.Val[i] != query.BOT &&
			l2.Val[i] != query.BOT &&
			l1.Val[i] != l2.Val[i] {
			return true, nil
		}
""","""			l1.Val[i] != query.BOT &&
			l2.Val[i] != query.BOT {
			return l1.Val[i] != l2.Val[i], nil
		}
""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
)

func main() {
	m := M{3, []query.Node{inner(0, 1, 2), inner(1, 3, 4), inner(2, 5, 6), leaf(false), leaf(true), leaf(false), leaf(true)}}
	same := func(c string) bool {
		for _, e := range all(3) {
			for _, g := range all(3) {
				ok := bots(e)+bots(g) == 0
				for i := range c {
					ok = ok && (c[i] == '_' || e[i] == g[i])
				}
				if ok && class(m, e) != class(m, g) {
					return false
				}
			}
		}
		return true
	}
	ctx := query.BasicQContext(m)
	f := encode("dfs", dfs.Var{I: "x"}, ctx)
	for _, c := range all(3) {
		expect("dfs(x)", ctx, f, map[string]string{"x": c}, same(c))
		ctx := query.BasicQContext(m)
		f := encode("dfs", dfs.Const{I: con(c)}, ctx)
		expect("dfs("+c+")", ctx, f, nil, same(c))
	}
}
'''
