ID="c12-stale-file"; PROP="C12"
NEEDS="writing to a path that already holds a longer file"
BREAKS="the rest of the older file stays behind the formula, so the file is not what is serialised to memory"
EDITS=[("cnf/cnf.go","	f, err := os.Create(path)","	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o644)")]
SAT=False
MAIN=r'''
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
)

func main() {
	dir, err := os.MkdirTemp("", "c12")
	if err != nil {
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f.cnf")
	for _, cl := range [][]cnf.Clause{
		{{1, 2}, {-3, 4, 100}, {5}, {}},
		{{1}},
		{},
		{{-1, 2}, {}},
	} {
		f := cnf.FromClauses(cl)
		if err := f.ToFile(path); err != nil {
			fmt.Println(err)
			os.RemoveAll(dir)
			os.Exit(1)
		}
		b, _ := os.ReadFile(path)
		if !bytes.Equal(b, f.ToBytes()) {
			fmt.Printf("file %q, memory %q\n", b, f.ToBytes())
			os.RemoveAll(dir)
			os.Exit(1)
		}
	}
	fmt.Println("ok")
}
'''
