ID="c16-temp-leak"; PROP="C16"
NEEDS="a query whose encoding fails"
BREAKS="the temporary file made for the encoding stays"
EDITS=[('compute/solver.go', '\tdefer func() {\n\t\tencFile.Close()\n\t\tos.Remove(encFile.Name())\n\t}()\n\n\t// Write formula as cnf to filePath.\n\tcnf, err := q.Encoding(ctx)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\n\t// Write formula as cnf to filePath.\n\tcnf, err := q.Encoding(ctx)\n\tif err != nil {\n\t\tencFile.Close()\n\t\treturn err\n\t}\n\tdefer func() {\n\t\tencFile.Close()\n\t\tos.Remove(encFile.Name())\n\t}()\n')]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type q struct{ err error }

func (e q) Encoding(ctx query.QContext) (cnf.CNF, error) {
	for i := 0; i < ctx.Dim(); i++ {
		for k := 0; k < 3; k++ {
			ctx.CNFVar("x", i, k)
		}
	}
	return cnf.CNF{}, e.err
}

type model struct{ dim int }

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return nil }

var _ = fmt.Sprint

// script is a solver that runs the given shell commands.
func script(dir, text string) compute.Solver {
	p := filepath.Join(dir, "solver.sh")
	check(os.WriteFile(p, []byte("#!/bin/sh\n"+text), 0o755) == nil, "script")
	s, err := compute.BinSolver(p)
	check(err == nil, err)
	return s
}

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, err)
	tmp := filepath.Join(dir, "tmp")
	check(os.Mkdir(tmp, 0o700) == nil)
	os.Setenv("TMPDIR", tmp)
	ctx := query.BasicQContext(model{1})
	s := script(dir, "exit 20\n")
	err = s.Step(q{fmt.Errorf("no encoding")}, ctx)
	es, _ := os.ReadDir(tmp)
	os.RemoveAll(dir)
	check(err != nil && len(es) == 0, err, es)
}
'''
