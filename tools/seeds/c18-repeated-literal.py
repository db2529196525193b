ID="c18-repeated-literal"; PROP="C18"
NEEDS="negating a formula in which a clause repeats a literal"
BREAKS="the repeated literal is removed in the storage of the clause itself, so the operand and the slice it was made of change"
EDITS=[("cnf/cnf.go","""		auxv := -clause[0]
		if len(clause) > 1 {""","""		clause = withoutRepeats(clause)
		auxv := -clause[0]
		if len(clause) > 1 {"""),
("cnf/cnf.go","""// Generate bidirectional implication from new""","""// Generate bidirectional implication from new""") if False else
("cnf/cnf.go","""// absInt returns the absolute value of an integer.""","""// withoutRepeats returns the clause with every literal once.
func withoutRepeats(clause Clause) Clause {
	kept := clause[:0]
	for _, lit := range clause {
		seen := false
		for _, k := range kept {
			if k == lit {
				seen = true
			}
		}
		if !seen {
			kept = append(kept, lit)
		}
	}
	return kept
}

// absInt returns the absolute value of an integer.""")]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
)

func main() {
	mk := func() []cnf.Clause {
		return []cnf.Clause{{1, 2, 3}, {4, 4, -5, 6}, {-6, 5, -6}, {7}, {2, 3, 3}}
	}
	cl := mk()
	f := cnf.FromClauses(cl)
	before := string(f.ToBytes())
	f.Negate()
	f.Negate(20)
	if fmt.Sprint(cl) != fmt.Sprint(mk()) {
		fmt.Println("clauses passed in became", cl)
		os.Exit(1)
	}
	if string(f.ToBytes()) != before {
		fmt.Println("operand became", string(f.ToBytes()))
		os.Exit(1)
	}
	fmt.Println("ok")
}
'''
