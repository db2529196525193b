ID="c13-glued-index"; PROP="C13"
NEEDS="two scopes of which one target is the other with digits appended, at indexes that make up for them"
BREAKS="two instantiations of a variable get the same scoped name"
EDITS=[("query/scoper.go","""		s.builder.WriteString(s.scopes[i].target)
		s.builder.WriteRune(31) // Unit separator
		s.builder.WriteString(strconv.Itoa(s.scopes[i].vIdx))""","""		s.builder.WriteString(s.scopes[i].target)
		s.builder.WriteString(strconv.Itoa(s.scopes[i].vIdx))""")]
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/query"
)

func main() {
	seen := map[query.QVar]string{}
	for _, t := range []string{"c", "d", "c1", "c2", "d10"} {
		for _, i := range []int{0, 1, 11, 12, 2, 101, 21, 22} {
			ctx := query.BasicQContext(M{dim: 1})
			ctx.AddVar("out")
			ctx.AddScope(t)
			ctx.SetScope(i, val("_"))
			ctx.AddVar("x")
			n := ctx.ScopeVar("x")
			if old, ok := seen[n]; ok {
				fmt.Printf("x in scope %s %d and in %s: %q\n", t, i, old, n)
				os.Exit(1)
			}
			seen[n] = fmt.Sprint(t, " ", i)
			if ctx.ScopeVar("out") != "out" || ctx.ScopeVar("x") != n {
				fmt.Println("lookups differ")
				os.Exit(1)
			}
		}
	}
	fmt.Println("ok")
}
'''
