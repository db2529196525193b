ID="c16-lost-output"; PROP="C16"
NEEDS="a satisfiable query followed by an unsatisfiable one and a reading of the values of the first"
BREAKS="the output of the satisfiable query is overwritten"
EDITS=[('compute/solver.go', '\tif code == 20 {\n\t\treturn UnsatError\n\t}\n\ts.output = output\n\n\treturn nil\n', '\ts.output = output\n\tif code == 20 {\n\t\treturn UnsatError\n\t}\n\n\treturn nil\n')]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type q struct{ err error }

func (e q) Encoding(ctx query.QContext) (cnf.CNF, error) {
	for i := 0; i < ctx.Dim(); i++ {
		for k := 0; k < 3; k++ {
			ctx.CNFVar("x", i, k)
		}
	}
	return cnf.CNF{}, e.err
}

type model struct{ dim int }

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return nil }

var _ = fmt.Sprint

// script is a solver that runs the given shell commands.
func script(dir, text string) compute.Solver {
	p := filepath.Join(dir, "solver.sh")
	check(os.WriteFile(p, []byte("#!/bin/sh\n"+text), 0o755) == nil, "script")
	s, err := compute.BinSolver(p)
	check(err == nil, err)
	return s
}

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, err)
	defer os.RemoveAll(dir)
	ctx := query.BasicQContext(model{1})
	s := script(dir, "echo 's SATISFIABLE'; echo 'v -1 2 -3 0'; exit 10\n")
	err = s.Step(q{}, ctx)
	check(err == nil, err)
	script(dir, "echo 's UNSATISFIABLE'; exit 20\n")
	err = s.Step(q{}, ctx)
	check(err == compute.UnsatError, err)
	c, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil && len(c[0].Val) == 1 && c[0].Val[0] == query.ZERO, c, err)
}
'''
