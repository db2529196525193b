ID="c16-silent-failure"; PROP="C16"
NEEDS="a solver that ends with an exit status other than 10 or 20 and prints no complaint"
BREAKS="the failed run is taken for a satisfiable query"
EDITS=[('compute/solver.go', '\t\tif exitCode != 10 && exitCode != 20 {\n', '\t\tif exitCode != 10 && exitCode != 20 && stderr.Len() > 0 {\n')]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type q struct{ err error }

func (e q) Encoding(ctx query.QContext) (cnf.CNF, error) {
	for i := 0; i < ctx.Dim(); i++ {
		for k := 0; k < 3; k++ {
			ctx.CNFVar("x", i, k)
		}
	}
	return cnf.CNF{}, e.err
}

type model struct{ dim int }

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return nil }

var _ = fmt.Sprint

// script is a solver that runs the given shell commands.
func script(dir, text string) compute.Solver {
	p := filepath.Join(dir, "solver.sh")
	check(os.WriteFile(p, []byte("#!/bin/sh\n"+text), 0o755) == nil, "script")
	s, err := compute.BinSolver(p)
	check(err == nil, err)
	return s
}

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, err)
	defer os.RemoveAll(dir)
	ctx := query.BasicQContext(model{1})
	s := script(dir, "exit 1\n")
	err = s.Step(q{}, ctx)
	check(err != nil && err != compute.UnsatError, err)
}
'''
