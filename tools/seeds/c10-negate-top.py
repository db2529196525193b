ID="c10-negate-top"; PROP="C10"
NEEDS="negating with a given top value that is smaller than the formula's own top variable, and a clause with at least two literals"
BREAKS="the new variables of the negation are numbered from the given value and collide with variables of the formula"
EDITS=[("cnf/cnf.go","		topv = maxInt(topv, opt_topv[0])","		if topv = opt_topv[0]; topv == 0 {\n			topv = c.tv\n		}")]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
)

func bad(f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// main negates a formula with several given values and looks for a new
// variable that is not above both the formula's variables and the given one.
func main() {
	for _, given := range []int{0, 1, 2, 3, 4, 5, 6, 9} {
		f := cnf.FromClauses([]cnf.Clause{{1, -2}, {3, 4, 5}, {-5}})
		n := f.Negate(given)
		if n.TopV() < 5 || n.TopV() < given {
			bad("given %d: top variable %d", given, n.TopV())
		}
		ss, cs := n.Clauses()
		old := map[int]bool{}
		for _, c := range append(append([]cnf.Clause{}, ss...), cs...) {
			for _, l := range c {
				old[abs(l)] = true
			}
		}
		top := 5
		if given > top {
			top = given
		}
		fresh := 0
		for v := range old {
			if v > top {
				fresh++
			}
		}
		if fresh != 3 {
			bad("given %d: %d new variables above %d and not 3", given, fresh, top)
		}
		for v := 1; v <= 32; v++ {
			// the negation must agree with the formula on every assignment
			a := map[int]bool{}
			for i := 1; i <= 5; i++ {
				a[i] = (v-1)>>(i-1)&1 == 1
			}
			want := !((a[1] || !a[2]) && (a[3] || a[4] || a[5]) && !a[5])
			vars := []int{}
			for x := range old {
				if x > 5 {
					vars = append(vars, x)
				}
			}
			got := false
			for m := 0; m < 1<<len(vars); m++ {
				for i, x := range vars {
					a[x] = m>>i&1 == 1
				}
				ok := true
				for _, c := range append(append([]cnf.Clause{}, ss...), cs...) {
					one := false
					for _, l := range c {
						one = one || a[abs(l)] == (l > 0)
					}
					ok = ok && one
				}
				got = got || ok
			}
			if got != want {
				bad("given %d, assignment %d: negation %v, want %v", given, v-1, got, want)
			}
		}
	}
	fmt.Println("ok")
}
'''
