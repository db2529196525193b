ID="c15-negated-error"; PROP="C15"
NEEDS="a negated atom whose solver step fails with an error other than unsatisfiability"
BREAKS="the error comes with a positive answer"
EDITS=[("compute/boolcomb.go","""	if err != nil {
		if errors.Is(err, UnsatError) {
			return a.Negated, nil
		}

		return false, err
	}

	return !a.Negated, nil
""","""	if errors.Is(err, UnsatError) {
		return a.Negated, nil
	}

	return (err == nil) != a.Negated, err
""")]
SAT=False
MAIN=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type fake struct{ err error }

func (f fake) Step(compute.Encodable, query.QContext) error { return f.err }
func (f fake) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return nil, nil
}

type q struct{}

func (q) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

func main() {
	bad := errors.New("no such file")
	for _, neg := range []bool{false, true} {
		ok, err := compute.QDTFAtom{Query: q{}, Negated: neg}.Sat(nil, fake{bad})
		if ok || !errors.Is(err, bad) {
			fmt.Println("negated", neg, "answer", ok, err)
			os.Exit(1)
		}
	}
}
'''
