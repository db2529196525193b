ID="c02-counter-gap"; PROP="C02"
NEEDS="dimension of at least 3 and an instance whose second feature is defined"
BREAKS="a counter value just above the number of features seen so far stays unconstrained, so the number of undefined features is not determined"
EDITS=[("query/predicates/lel/utils.go","		for j = i + 2; j <= dim; j++ {","		for j = i + 3; j <= dim; j++ {")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
)

func main() {
	for dim := 1; dim <= 4; dim++ {
		ctx := query.BasicQContext(M{dim: dim})
		cs := all(dim)
		for _, c := range []string{cs[0], cs[len(cs)/2], cs[len(cs)-1]} {
			ctx.Reset()
			f := encode("lel", lel.ConstVar{I1: con(c), I2: "x", CountVarGen: gen1("n")}, ctx)
			for _, x := range cs {
				expect("lel("+c+",x)", ctx, f, map[string]string{"x": x}, bots(c) >= bots(x))
			}
		}
	}
}
'''
