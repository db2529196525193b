ID="c03-overflow-count"; PROP="C03"
NEEDS="dimension of at least 2 and a comparison in which one of the distances is large; a solver that is free to set the unconstrained counter"
BREAKS="the counters that can not occur are no longer all forbidden, so the largest distance is not determined by the instance any more"
EDITS=[("query/extensions/leh/utils.go","""	for i := 0; i < dim; i++ {
		for j := i + 2; j <= dim; j++ {
			clauses = append(clauses, cnf.Clause{-ctx.CNFVar(vcd, i, j)})
		}
	}
""","""	for i := 0; i < dim; i++ {
		for j := i + 2; j < dim; j++ {
			clauses = append(clauses, cnf.Clause{-ctx.CNFVar(vcd, i, j)})
		}
	}
""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
)

func main() {
	for _, a := range []string{"000", "010", "111"} {
		for _, b := range []string{"000", "011", "101"} {
			ctx := query.BasicQContext(M{dim: 3})
			f := encode("leh", leh.VarConstConst{I1: "x", I2: con(a), I3: con(b), HammingDistanceVarGen: gen2("hd")}, ctx)
			for _, x := range all(3) {
				expect("leh("+"x,"+a+","+b+")", ctx, f, map[string]string{"x": x}, bots(x) == 0 && dist(x, a) <= dist(x, b))
			}
		}
	}
}
'''
