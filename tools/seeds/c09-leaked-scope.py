ID="c09-leaked-scope"; PROP="C09"
NEEDS="a guarded formula whose body cannot be encoded, and further use of the same context"
BREAKS="when the body reports an error the scope stays open, so names of variables and constants used later depend on a quantifier that is no longer there"
EDITS=[("query/logop/forallguarded.go","""		if perr := ctx.PopScope(); perr != nil {
			err = errors.Join(err, perr)
		}
""","""		if err != nil {
			return // keep the first error
		}
		err = ctx.PopScope()
""")]
SAT=False
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

type M struct {
	dim   int
	nodes []query.Node
}

func (m M) Dim() int            { return m.dim }
func (m M) Nodes() []query.Node { return m.nodes }

func main() {
	leaf := query.Node{ZChild: query.NoChild, OChild: query.NoChild}
	ctx := query.BasicQContext(M{2, []query.Node{{Feat: 0, ZChild: 1, OChild: 2}, leaf, leaf}})
	before := ctx.ScopeVar("x")
	// the second operand has the wrong dimension
	bad := logop.And{
		Q1: full.Var{I: "x"},
		Q2: subsumption.ConstVar{I1: query.QConst{Val: make([]query.FeatV, 3)}, I2: "x"},
	}
	_, err := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: bad}.Encoding(ctx)
	if err == nil {
		fmt.Println("no error for a constant of the wrong length")
		os.Exit(1)
	}
	if after := ctx.ScopeVar("x"); after != before {
		fmt.Printf("x is named %q before and %q after\n", before, after)
		os.Exit(1)
	}
	if ctx.PopScope() == nil {
		fmt.Println("a scope is still open")
		os.Exit(1)
	}
	fmt.Println("ok")
}
'''
