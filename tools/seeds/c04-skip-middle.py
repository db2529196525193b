ID="c04-skip-middle"; PROP="C04"
NEEDS="a preference list of at least three features and instances that are first told apart by a feature in the middle of the list"
BREAKS="the rank variable of one position refers to the last position instead of the next one, so the features in between are ignored"
EDITS=[("query/extensions/hepr/var_var.go","""				-ctx.CNFVar(sv2, idx, int(query.BOT)),
				ctx.CNFVar(vvp, 0, i),
				-ctx.CNFVar(vvp, 0, i+1),
""","""				-ctx.CNFVar(sv2, idx, int(query.BOT)),
				ctx.CNFVar(vvp, 0, i),
				-ctx.CNFVar(vvp, 0, plen-1),
""")]
MAIN=r'''
package main

import (
	"fmt"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
)

func main() {
	for _, p := range [][]int{{0, 1, 2}, {2, 0, 1}, {1}, {2, 1}} {
		ctx := query.BasicQContext(M{dim: 3})
		f := encode("hepr", hepr.VarVar{I1: "x", I2: "y", Preference: p, FeaturePreferenceRankVarGen: gen3("fp")}, ctx)
		for _, x := range all(3) {
			for _, y := range all(3) {
				want := true
				for _, i := range p {
					if (x[i] == '_') != (y[i] == '_') {
						want = y[i] == '_'
						break
					}
				}
				expect(fmt.Sprint("hepr ", p), ctx, f, map[string]string{"x": x, "y": y}, want)
			}
		}
	}
}
'''
