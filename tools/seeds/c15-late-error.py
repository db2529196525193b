ID="c15-late-error"; PROP="C15"
NEEDS="an or-combination in which an element fails and a later element is satisfiable"
BREAKS="the error reached is dropped and a positive answer is given"
EDITS=[("compute/boolcomb.go","""func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	for _, elem := range oc {
		sat, err := elem.Sat(ctx, solver)
		if err != nil {
			return false, err
		}

		if sat {
			return true, nil
		}
	}

	return false, nil
}""","""func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
	var first error

	for _, elem := range oc {
		sat, err := elem.Sat(ctx, solver)
		if err != nil && first == nil {
			first = err
		}

		if sat {
			return true, nil
		}
	}

	return false, first
}""")]
SAT=False
MAIN=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type el struct {
	sat bool
	err error
}

func (e el) Sat(query.QContext, compute.Solver) (bool, error) { return e.sat, e.err }

func main() {
	bad := errors.New("no space left")
	ok, err := compute.OrCombinator{el{false, nil}, el{false, bad}, el{true, nil}}.Sat(nil, nil)
	if ok || !errors.Is(err, bad) {
		fmt.Println("answer", ok, err)
		os.Exit(1)
	}
}
'''
