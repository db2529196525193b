ID="c06-feature-once"; PROP="C06"
NEEDS="a tree that decides one feature in two branches that the instance both reaches"
BREAKS="the search remembers features instead of nodes, so leaves below the second node that decides a feature are never looked at"
EDITS=[("query/extensions/allcomp/const.go","""		switch sc.Val[n.Feat] {
		case query.BOT:
			if _, ok := nvisited[n.ZChild]; !ok {
				nvisited[n.ZChild] = struct{}{}
				nstack = append(nstack, nodes[n.ZChild])
			}
			if _, ok := nvisited[n.OChild]; !ok {
				nvisited[n.OChild] = struct{}{}
				nstack = append(nstack, nodes[n.OChild])
			}
""","""		if _, ok := nvisited[n.Feat]; ok {
			continue
		}

		switch sc.Val[n.Feat] {
		case query.BOT:
			nvisited[n.Feat] = struct{}{}
			nstack = append(nstack, nodes[n.ZChild], nodes[n.OChild])
""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
)

func main() {
	m := M{4, []query.Node{inner(1, 3, 1), inner(0, 2, 4), leaf(true), inner(0, 5, 6), leaf(true), leaf(true), inner(3, 7, 8), leaf(false), leaf(true)}}
	for _, c := range all(4) {
		for _, v := range []bool{false, true} {
			want := true
			for _, e := range completions(c) {
				want = want && class(m, e) == v
			}
			ctx := query.BasicQContext(m)
			f := encode("allcomp", allcomp.Const{I: con(c), LeafValue: v}, ctx)
			expect("allcomp("+c+")", ctx, f, nil, want)
		}
	}
}
'''
