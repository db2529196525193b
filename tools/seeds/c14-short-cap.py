ID="c14-short-cap"; PROP="C14"
NEEDS="an order along which more than two to the power of the dimension instances improve on each other"
BREAKS="the search stops before the optimum"
EDITS=[('compute/optimum.go', '\tfor {\n\t\tsteps += 1\n', '\t// every improvement determines at least one more feature\n\tfor steps <= 1<<ctx.Dim() {\n\t\tsteps += 1\n')]
SAT=False
MAIN=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type q struct{}

func (q) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

func form(query.QVar) compute.Encodable                      { return q{} }
func order(query.QVar, query.QConst) compute.Encodable       { return q{} }

type model struct{ dim int }

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return nil }

var broken = errors.New("out of memory")

var _ = fmt.Sprint

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

// a chain of instances, each better than the one before
type solver struct{ n int }

var chain = []query.FeatV{query.BOT, query.ZERO, query.ONE}

func (s *solver) Step(e compute.Encodable, ctx query.QContext) error {
	s.n++
	if s.n > len(chain) {
		return compute.UnsatError
	}
	return nil
}

func (s *solver) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return []query.QConst{{Val: []query.FeatV{chain[s.n-1]}}}, nil
}

func main() {
	out, err := compute.ComputeOptim(form, order, "x", query.BasicQContext(model{1}), &solver{})
	check(err == nil && out.Found && out.Value.Val[0] == query.ONE && out.Calls == 4, out, err)
}
'''
