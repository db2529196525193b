ID="c17-apart-repeat"; PROP="C17"
NEEDS="a preference list that repeats a feature which is not its neighbour in the list"
BREAKS="only a repetition of the feature just before is refused"
EDITS=[("query/extensions/hepr/util.go","""		seen[i] = true
""","""		clear(seen)
		seen[i] = true
""")]
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
)

func main() {
	for _, p := range [][]int{{1, 1}, {0, 1, 0}, {0, 3}, {-1}, {2, 0, 1, 2}, {2, 0, 1}} {
		ok := len(p) == 3 && p[0] == 2
		_, err := hepr.VarVar{I1: "x", I2: "y", Preference: p, FeaturePreferenceRankVarGen: gen3("fp")}.Encoding(query.BasicQContext(M{dim: 3}))
		if (err == nil) != ok {
			fmt.Println("preference", p, "error", err)
			os.Exit(1)
		}
	}
}
'''
