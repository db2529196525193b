ID="c01-unscoped-operand"; PROP="C01"
NEEDS="the second constant is supplied by an enclosing quantifier while the given one also carries a value of its own"
BREAKS="the value compared is the one the constant was written with and not the one its quantifier supplies"
EDITS=[("query/extensions/cons/const_const.go","			sc2.Val[i] != query.BOT &&\n			sc1.Val[i] != sc2.Val[i] {","			sc2.Val[i] != query.BOT &&\n			sc1.Val[i] != valueAt(c.I2, sc2, i) {"),
("query/extensions/cons/const_const.go","""type ConstConst struct {""","""// valueAt prefers the value a constant was given over the one of its scope.
func valueAt(c, sc query.QConst, i int) query.FeatV {
	if i < len(c.Val) && c.Val[i] != query.BOT {
		return c.Val[i]
	}
	return sc.Val[i]
}

type ConstConst struct {""")]
MAIN=r'''
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
)

func main() {
	for _, given := range []string{"", "__", "01", "10"} {
		for _, a := range all(2) {
			for _, b := range all(2) {
				ctx := query.BasicQContext(M{dim: 2})
				ctx.AddScope("c")
				ctx.SetScope(0, val(b))
				f := encode("cons", cons.ConstConst{I1: con(a), I2: query.QConst{ID: "c", Val: val(given)}}, ctx)
				want := true
				for i := range a {
					if a[i] != '_' && b[i] != '_' && a[i] != b[i] {
						want = false
					}
				}
				expect("cons("+a+","+b+" from scope)", ctx, f, nil, want)
			}
		}
	}
}
'''
