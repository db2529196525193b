ID="c11-stale-last"; PROP="C11"
NEEDS="a reset directly followed by asking for the triple that was asked for last before it"
BREAKS="the number the triple had before the reset is returned again, is not known to exist and collides with a later one"
EDITS=[("query/varmanager.go","	vars map[varRep]int // User variables map.\n","	vars map[varRep]int // User variables map.\n	last varRep         // Variable asked for last.\n	lnum int            // Its number, or 0.\n"),
("query/varmanager.go","""	if val, ok := vm.vars[vr]; ok {
		return val
	}
	vm.topv += 1
	vm.vars[vr] = vm.topv
	return vm.topv""","""	if vm.lnum != 0 && vm.last == vr {
		return vm.lnum
	}
	vm.last = vr
	if val, ok := vm.vars[vr]; ok {
		vm.lnum = val
		return val
	}
	vm.topv += 1
	vm.vars[vr] = vm.topv
	vm.lnum = vm.topv
	return vm.topv""")]
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/query"
)

func main() {
	for round := 0; round < 3; round++ {
		ctx := query.BasicQContext(M{dim: 2})
		for r := 0; r < 3; r++ {
			seen := map[int]string{}
			ask := func(v string, i, j int) {
				k := fmt.Sprint(v, i, j)
				n := ctx.CNFVar(query.QVar(v), i, j)
				if old, ok := seen[n]; ok && old != k || n < 1 || n > ctx.TopV() || !ctx.CNFVarExists(query.QVar(v), i, j) {
					fmt.Println("round", r, "triple", k, "number", n, "of", old, "top", ctx.TopV())
					os.Exit(1)
				}
				seen[n] = k
			}
			for _, v := range []string{"x", "y", "x"} {
				for i := 0; i <= round; i++ {
					ask(v, round-i, 1)
				}
			}
			ctx.Reset()
		}
	}
	fmt.Println("ok")
}
'''
