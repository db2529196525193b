ID="c17-last-child"; PROP="C17"
NEEDS="a tree in which the one side of a node refers to the index right behind the last node"
BREAKS="the range check of the one side lets the number of nodes pass, so the walk panics"
EDITS=[("query/extensions/dfs/utils.go","""	if n.OChild < 0 || n.OChild >= nlen {
""","""	if n.OChild < 0 || n.OChild > nlen {
""")]
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
)

func main() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("panic:", r)
			os.Exit(1)
		}
	}()
	for _, nodes := range [][]query.Node{
		{inner(0, 1, 2), leaf(true)},
		{inner(0, 2, 1), leaf(true)},
		{inner(2, 1, 1), leaf(true)},
		{},
	} {
		ctx := query.BasicQContext(M{2, nodes})
		if _, err := (dfs.Var{I: "x"}).Encoding(ctx); err == nil {
			fmt.Println("accepted", nodes)
			os.Exit(1)
		}
		if _, err := (dfs.Const{I: con("0_")}).Encoding(ctx); err == nil {
			fmt.Println("accepted", nodes)
			os.Exit(1)
		}
	}
}
'''
