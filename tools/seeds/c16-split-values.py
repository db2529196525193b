ID="c16-split-values"; PROP="C16"
NEEDS="a solver that prints another line, such as a comment, between two value lines"
BREAKS="the value lines after it are ignored"
EDITS=[('compute/solver.go', '\t\tif len(line) == 0 || line[0] != byte(118) {\n\t\t\tcontinue\n\t\t}\n', '\t\tif len(line) == 0 || line[0] != byte(118) {\n\t\t\tif len(vval) > 0 {\n\t\t\t\t// the value lines are over\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n')]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type q struct{ err error }

func (e q) Encoding(ctx query.QContext) (cnf.CNF, error) {
	for i := 0; i < ctx.Dim(); i++ {
		for k := 0; k < 3; k++ {
			ctx.CNFVar("x", i, k)
		}
	}
	return cnf.CNF{}, e.err
}

type model struct{ dim int }

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return nil }

var _ = fmt.Sprint

// script is a solver that runs the given shell commands.
func script(dir, text string) compute.Solver {
	p := filepath.Join(dir, "solver.sh")
	check(os.WriteFile(p, []byte("#!/bin/sh\n"+text), 0o755) == nil, "script")
	s, err := compute.BinSolver(p)
	check(err == nil, err)
	return s
}

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, err)
	defer os.RemoveAll(dir)
	ctx := query.BasicQContext(model{2})
	s := script(dir, "echo 'v -1 2 -3'; echo 'c more'; echo 'v 4 -5 -6 0'; exit 10\n")
	err = s.Step(q{}, ctx)
	check(err == nil, err)
	c, err := s.Values([]query.QVar{"x"}, ctx)
	check(err == nil && len(c[0].Val) == 2 && c[0].Val[0] == query.ZERO && c[0].Val[1] == query.BOT, c, err)
}
'''
