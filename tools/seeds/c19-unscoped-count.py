ID="c19-unscoped-count"; PROP="C19"
NEEDS="a level comparison of a constant with a variable that was introduced inside an open scope, and another one of the same variable name outside of it"
BREAKS="the count variables are named after the unscoped variable, so two different instances share them"
EDITS=[("query/predicates/lel/const_var.go","""	svCount := l.CountVarGen(sv)
""","""	svCount := l.CountVarGen(l.I2)
""")]
MAIN=r'''
package main

import (
	"fmt"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
)

func main() {
	ctx := query.BasicQContext(M{dim: 2})
	g := gen1("count")
	outer := encode("outside", lel.ConstVar{I1: con("0_"), I2: "x", CountVarGen: g}, ctx)
	ctx.AddScope("k")
	if err := ctx.SetScope(0, val("01")); err != nil {
		fatal("%v", err)
	}
	ctx.AddVar("x")
	in := string(ctx.ScopeVar("x"))
	inside := encode("inside", lel.ConstVar{I1: con("__"), I2: "x", CountVarGen: g}, ctx)
	if err := ctx.PopScope(); err != nil {
		fatal("%v", err)
	}
	for _, x := range all(2) {
		for _, y := range all(2) {
			vals := map[string]string{"x": x, in: y}
			expect(fmt.Sprint("both ", x, y), ctx, outer.Conjunction(inside), vals, bots(x) <= 1)
		}
	}
}
'''
