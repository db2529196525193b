ID="c14-early-reset"; PROP="C14"
NEEDS="a solver that reads the value of the variable through the numbering of the context the query was encoded in"
BREAKS="the value is read with a numbering that was started afresh, so that another instance is reported"
EDITS=[('compute/optimum.go', '\t\tbm, err = solver.Values([]query.QVar{v}, ctx)\n\t\tif err != nil {\n\t\t\treturn OptOutput{false, query.QConst{}, 0}, err\n\t\t}\n\n\t\tctx.Reset()\n', '\t\tctx.Reset()\n\n\t\tbm, err = solver.Values([]query.QVar{v}, ctx)\n\t\tif err != nil {\n\t\t\treturn OptOutput{false, query.QConst{}, 0}, err\n\t\t}\n')]
SAT=False
MAIN=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type q struct{}

func (q) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

func form(query.QVar) compute.Encodable                      { return q{} }
func order(query.QVar, query.QConst) compute.Encodable       { return q{} }

type model struct{ dim int }

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return nil }

var broken = errors.New("out of memory")

var _ = fmt.Sprint

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

// the formula is x[0] = 1, nothing is better than that
type solver struct{ n, num int }

func (s *solver) Step(e compute.Encodable, ctx query.QContext) error {
	s.n++
	if s.n > 1 {
		return compute.UnsatError
	}
	ctx.CNFVar("y", 0, 0)
	ctx.CNFVar("y", 0, 1)
	s.num = ctx.CNFVar("x", 0, int(query.ONE))
	return nil
}

func (s *solver) Values(vs []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	for _, f := range []query.FeatV{query.ZERO, query.ONE} {
		if ctx.CNFVar(vs[0], 0, int(f)) == s.num {
			return []query.QConst{{Val: []query.FeatV{f}}}, nil
		}
	}
	return []query.QConst{{Val: []query.FeatV{query.BOT}}}, nil
}

func main() {
	out, err := compute.ComputeOptim(form, order, "x", query.BasicQContext(model{1}), &solver{})
	check(err == nil && out.Found && len(out.Value.Val) == 1 && out.Value.Val[0] == query.ONE, out, err)
}
'''
