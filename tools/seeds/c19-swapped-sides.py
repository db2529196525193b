ID="c19-swapped-sides"; PROP="C19"
NEEDS="a preference comparison of an instance with a constant and one of the same constant with that instance, over the same list, in one context"
BREAKS="the two comparisons name their rank variables alike although they mean opposite things"
EDITS=[("query/extensions/hepr/var_const.go","""		sv,
		query.QVar(sc.AsString()),
	)
""","""		query.QVar(sc.AsString()),
		sv,
	)
""")]
MAIN=r'''
package main

import (
	"fmt"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
)

func main() {
	rank := func(a, b string, p []int) bool {
		for _, i := range p {
			if (a[i] == '_') != (b[i] == '_') {
				return b[i] == '_'
			}
		}
		return true
	}
	p := []int{1, 0}
	for _, c := range all(2) {
		ctx := query.BasicQContext(M{dim: 2})
		g := gen3("fp")
		f1 := encode("x-c", hepr.VarConst{I1: "x", I2: con(c), Preference: p, FeaturePreferenceRankVarGen: g}, ctx)
		f2 := encode("c-x", hepr.ConstVar{I1: con(c), I2: "x", Preference: p, FeaturePreferenceRankVarGen: g}, ctx)
		for _, x := range all(2) {
			want := rank(x, c, p) && rank(c, x, p)
			expect(fmt.Sprint("both with ", c), ctx, f1.Conjunction(f2), map[string]string{"x": x}, want)
		}
	}
}
'''
