ID="c17-either-gen"; PROP="C17"
NEEDS="a leh formula between a variable, a constant and a variable with only one of its two name generators set"
BREAKS="the formula is only refused when both generators are missing, one missing generator is called and panics"
EDITS=[("query/extensions/leh/var_const_var.go","""	if l.HammingDistanceVarGen == nil || l.EqualFeatureVarGen == nil {
""","""	if l.HammingDistanceVarGen == nil && l.EqualFeatureVarGen == nil {
""")]
MAIN=r'''
package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
)

func main() {
	try := func(name string, l leh.VarConstVar) {
		defer func() {
			if r := recover(); r != nil {
				fmt.Println(name, "panics:", r)
				os.Exit(1)
			}
		}()
		l.I1, l.I2, l.I3 = "x", con("010"), "y"
		if _, err := l.Encoding(query.BasicQContext(M{dim: 3})); err == nil {
			fmt.Println(name, "is not refused")
			os.Exit(1)
		}
	}
	try("both missing", leh.VarConstVar{})
	try("no distance", leh.VarConstVar{EqualFeatureVarGen: gen2("ef")})
	try("no equality", leh.VarConstVar{HammingDistanceVarGen: gen2("hd")})
}
'''
