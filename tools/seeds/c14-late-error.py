ID="c14-late-error"; PROP="C14"
NEEDS="a solver that fails with an error other than unsatisfiability after it has found an instance"
BREAKS="the instance of the moment is reported as the optimal one and the error is lost"
EDITS=[('compute/optimum.go', '\t\t\tif errors.Is(err, UnsatError) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn OptOutput{false, query.QConst{}, 0}, err\n\t\t}\n\t}\n', '\t\t\t// bm holds the best instance\n\t\t\tbreak\n\t\t}\n\t}\n\tif err != nil && len(bm) == 0 {\n\t\treturn OptOutput{false, query.QConst{}, 0}, err\n\t}\n')]
SAT=False
MAIN=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type q struct{}

func (q) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

func form(query.QVar) compute.Encodable                      { return q{} }
func order(query.QVar, query.QConst) compute.Encodable       { return q{} }

type model struct{ dim int }

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return nil }

var broken = errors.New("out of memory")

var _ = fmt.Sprint

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

type solver struct{ n int }

func (s *solver) Step(e compute.Encodable, ctx query.QContext) error {
	s.n++
	if s.n > 2 {
		return broken
	}
	return nil
}

func (s *solver) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return []query.QConst{{Val: []query.FeatV{query.ZERO}}}, nil
}

func main() {
	out, err := compute.ComputeOptim(form, order, "x", query.BasicQContext(model{1}), &solver{})
	check(errors.Is(err, broken) && !out.Found, out, err)
}
'''
