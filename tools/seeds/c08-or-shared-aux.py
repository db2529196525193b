ID="c08-or-shared-aux"; PROP="C08"
NEEDS="a disjunction whose two operands both have semantic clauses of several literals"
BREAKS="the negations of the two operands use the same auxiliary variable numbers, so the disjunction no longer means the disjunction of its operands"
EDITS=[("query/logop/or.go","""	cnf1 = cnf1.Negate(ctx.TopV())
	tv := cnf1.TopV()
	ctx.UpdateTopV(tv) // TopV could have increases while negating

	cnf2 = cnf2.Negate(ctx.TopV())
	tv = cnf2.TopV()
	ctx.UpdateTopV(tv) // TopV could have increases while negating
""","""	cnf1 = cnf1.Negate(ctx.TopV())
	cnf2 = cnf2.Negate(ctx.TopV())
	tv := max(cnf1.TopV(), cnf2.TopV())
	ctx.UpdateTopV(tv) // TopV could have increases while negating
""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func main() {
	for dim := 1; dim <= 2; dim++ {
		ctx := query.BasicQContext(M{dim: dim})
		f := encode("or", logop.Or{
			Q1: subsumption.VarVar{I1: "x", I2: "y"},
			Q2: logop.And{Q1: full.Var{I: "x"}, Q2: subsumption.VarVar{I1: "y", I2: "x"}},
		}, ctx)
		for _, x := range all(dim) {
			for _, y := range all(dim) {
				xy, yx := true, bots(x) == 0
				for i := range x {
					if x[i] != '_' && x[i] != y[i] {
						xy = false
					}
					if y[i] != '_' && x[i] != y[i] {
						yx = false
					}
				}
				expect("sub(x,y) or (full(x) and sub(y,x))", ctx, f, map[string]string{"x": x, "y": y}, xy || yx)
			}
		}
	}
}
'''
