ID="c15-wrapped-unsat"; PROP="C15"
NEEDS="a solver whose unsatisfiability answer comes wrapped with context of its own, as errors.Is allows"
BREAKS="an unsatisfiable atom is reported as an error"
EDITS=[("compute/boolcomb.go","""		if errors.Is(err, UnsatError) {
			return a.Negated, nil
		}

		return false, err
""","""		switch err {
		case UnsatError:
			return a.Negated, nil
		default:
			return false, errors.Join(err)
		}
""")]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type fake struct{ err error }

func (f fake) Step(compute.Encodable, query.QContext) error { return f.err }
func (f fake) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return nil, nil
}

type q struct{}

func (q) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

func main() {
	for _, neg := range []bool{false, true} {
		e := fmt.Errorf("after 3 restarts: %w", compute.UnsatError)
		ok, err := compute.AndCombinator{compute.QDTFAtom{Query: q{}, Negated: neg}}.Sat(nil, fake{e})
		if err != nil || ok != neg {
			fmt.Println("negated", neg, "answer", ok, err)
			os.Exit(1)
		}
	}
}
'''
