package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
)

type (
	inst  = []query.FeatV
	qv    = query.QVar
	model struct {
		dim   int
		nodes []query.Node
	}
	encodable interface {
		Encoding(ctx query.QContext) (cnf.CNF, error)
	}
)

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return m.nodes }

var scratch string

func scratchDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "vharness")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

func cleanup() {
	if scratch != "" && strings.HasPrefix(filepath.Base(scratch), "vharness") {
		os.RemoveAll(scratch)
		scratch = ""
	}
}

// ---------------------------------------------------------------- instances

func rInst(r *rand.Rand, dim int) inst {
	v := make(inst, dim)
	mode := r.Intn(4)
	for i := range v {
		switch mode {
		case 0:
			v[i] = query.FeatV(r.Intn(3))
		case 1: // mostly undefined
			if r.Intn(4) == 0 {
				v[i] = query.FeatV(1 + r.Intn(2))
			}
		case 2: // mostly defined
			if r.Intn(5) != 0 {
				v[i] = query.FeatV(1 + r.Intn(2))
			}
		case 3: // full
			v[i] = query.FeatV(1 + r.Intn(2))
		}
	}
	return v
}

// near returns a copy of v with a few features changed.
func near(r *rand.Rand, v inst) inst {
	w := append(inst{}, v...)
	if len(w) == 0 {
		return w
	}
	for k := r.Intn(3); k > 0; k-- {
		w[r.Intn(len(w))] = query.FeatV(r.Intn(3))
	}
	return w
}

func nearFull(r *rand.Rand, v inst) inst {
	w := append(inst{}, v...)
	for i := range w {
		if w[i] == query.BOT {
			w[i] = query.FeatV(1 + r.Intn(2))
		}
	}
	for k := r.Intn(4); k > 0 && len(w) > 0; k-- {
		w[r.Intn(len(w))] = query.FeatV(1 + r.Intn(2))
	}
	return w
}

func rDim(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0, 1:
		return 1
	case 2, 3, 4:
		return 2
	case 5, 6, 7:
		return 3
	case 8:
		return 4
	case 9:
		return 5 + r.Intn(4)
	case 10:
		return 9 + r.Intn(5)
	}
	return 1 + r.Intn(20)
}

func pow3(n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= 3
		if p > 1<<20 {
			return p
		}
	}
	return p
}

func istr(v inst) string {
	b := make([]byte, len(v))
	for i, f := range v {
		b[i] = "_01"[f]
	}
	return "(" + string(b) + ")"
}

// ---------------------------------------------------------------- trees

// rTree makes a random read-once-per-path tree; the numbering of the nodes is
// shuffled (the root stays 0) and fields that a node does not use are noise.
func rTree(r *rand.Rand, dim, maxDepth int) []query.Node {
	var nodes []query.Node
	var build func(used map[int]bool, d int) int
	build = func(used map[int]bool, d int) int {
		me := len(nodes)
		nodes = append(nodes, query.Node{})
		if d >= maxDepth || len(used) >= dim || d > 0 && r.Intn(4) == 0 || d == 0 && r.Intn(12) == 0 {
			n := query.Node{Value: r.Intn(2) == 0, ZChild: -1, OChild: -1}
			if r.Intn(5) == 0 {
				n.Feat = r.Intn(dim+3) - 1
			}
			nodes[me] = n
			return me
		}
		f := r.Intn(dim)
		for used[f] {
			f = r.Intn(dim)
		}
		used[f] = true
		n := query.Node{Feat: f, Value: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			n.ZChild = build(used, d+1)
			n.OChild = build(used, d+1)
		} else {
			n.OChild = build(used, d+1)
			n.ZChild = build(used, d+1)
		}
		delete(used, f)
		nodes[me] = n
		return me
	}
	build(map[int]bool{}, 0)
	p := r.Perm(len(nodes))
	if r.Intn(2) == 0 { // keep the natural order half of the time
		for i := range p {
			p[i] = i
		}
	}
	for i, x := range p { // root stays first
		if x == 0 {
			p[0], p[i] = p[i], p[0]
		}
	}
	pos := make([]int, len(p))
	for i, x := range p {
		pos[x] = i
	}
	out := make([]query.Node, len(nodes))
	for i := range out {
		n := nodes[p[i]]
		if n.ZChild >= 0 {
			n.ZChild = pos[n.ZChild]
		}
		if n.OChild >= 0 {
			n.OChild = pos[n.OChild]
		}
		out[i] = n
	}
	return out
}

func isLeaf(n query.Node) bool { return n.ZChild < 0 || n.OChild < 0 }

type tnode struct {
	v inst
	n query.Node
}

// nodeInsts lists the partial instance of every node.
func nodeInsts(dim int, nodes []query.Node) []tnode {
	var out []tnode
	var rec func(i int, v inst)
	rec = func(i int, v inst) {
		out = append(out, tnode{append(inst{}, v...), nodes[i]})
		n := nodes[i]
		if isLeaf(n) {
			return
		}
		w := append(inst{}, v...)
		w[n.Feat] = query.ZERO
		rec(n.ZChild, w)
		w[n.Feat] = query.ONE
		rec(n.OChild, w)
	}
	rec(0, make(inst, dim))
	return out
}

func mNode(m model, x inst) bool {
	for _, t := range nodeInsts(m.dim, m.nodes) {
		if istr(t.v) == istr(x) {
			return true
		}
	}
	return false
}

func mAllComp(m model, x inst, val bool) bool {
	for _, t := range nodeInsts(m.dim, m.nodes) {
		if isLeaf(t.n) && t.n.Value != val && consistent(t.v, x) {
			return false
		}
	}
	return true
}

func mDFS(m model, x inst) bool {
	ts := nodeInsts(m.dim, m.nodes)
	for _, a := range ts {
		for _, b := range ts {
			if !isLeaf(a.n) || !isLeaf(b.n) || !a.n.Value || b.n.Value {
				continue
			}
			sep := false
			for i := range x {
				if x[i] != query.BOT && a.v[i] != query.BOT && b.v[i] != query.BOT && a.v[i] != b.v[i] {
					sep = true
				}
			}
			if !sep {
				return false
			}
		}
	}
	return true
}

func consistent(a, b inst) bool {
	for i := range a {
		if a[i] != query.BOT && b[i] != query.BOT && a[i] != b[i] {
			return false
		}
	}
	return true
}

func subsumed(a, b inst) bool {
	for i := range a {
		if a[i] != query.BOT && a[i] != b[i] {
			return false
		}
	}
	return true
}

func bots(a inst) int {
	n := 0
	for _, f := range a {
		if f == query.BOT {
			n++
		}
	}
	return n
}

func hdist(a, b inst) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

func mLEH(a, b, c inst) bool {
	return bots(a) == 0 && bots(b) == 0 && bots(c) == 0 && hdist(a, b) <= hdist(a, c)
}

func mHEPR(pref []int, a, b inst) bool {
	for _, p := range pref {
		ab, bb := a[p] == query.BOT, b[p] == query.BOT
		if ab != bb {
			return bb
		}
	}
	return true
}

// ---------------------------------------------------------------- assignments

// lits gives the literals that fix the instance variable v to x.
func lits(ctx query.QContext, v qv, x inst) []int {
	var out []int
	for i, f := range x {
		for _, k := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
			l := ctx.CNFVar(v, i, int(k))
			if k != f {
				l = -l
			}
			out = append(out, l)
		}
	}
	return out
}

// checkMeaning verifies that under the assumptions the consistency clauses can
// be completed and that the semantic clauses are satisfied exactly if want,
// under every completion.
func checkMeaning(sc, cc []cnf.Clause, assume []int, want bool) string {
	s := newSat(cc)
	if s.solve(assume...) == satNo {
		return "the consistency clauses exclude the assignment"
	}
	if !want {
		if newSat(cc, sc).solve(assume...) == satYes {
			return "the formula can be satisfied but its meaning is false"
		}
		return ""
	}
	for _, c := range sc {
		neg := append([]int{}, assume...)
		taut := false
		for _, l := range c {
			neg = append(neg, -l)
			for _, k := range c {
				if k == -l {
					taut = true
				}
			}
		}
		if !taut && s.solve(neg...) == satYes {
			return fmt.Sprintf("semantic clause %v can be false but the meaning is true", c)
		}
	}
	return ""
}

// checkNumbers verifies that literals are non-zero and that both the reported
// top variable and the context's are at least every variable.
func checkNumbers(f cnf.CNF, ctx query.QContext) string {
	sc, cc := f.Clauses()
	m := 0
	for _, cs := range [][]cnf.Clause{sc, cc} {
		for _, c := range cs {
			for _, l := range c {
				if l == 0 {
					return "literal 0 in a clause"
				}
				if l < 0 {
					l = -l
				}
				if l > m {
					m = l
				}
			}
		}
	}
	if f.TopV() < m {
		return fmt.Sprintf("formula's top variable %d below its variable %d", f.TopV(), m)
	}
	if ctx != nil && ctx.TopV() < m {
		return fmt.Sprintf("context's top variable %d below the formula's variable %d", ctx.TopV(), m)
	}
	return ""
}

// ---------------------------------------------------------------- generators

const rsep = "\x1e"

type gens struct {
	tag  string
	sort bool
}

func (g gens) one(kind string) func(v qv) qv {
	return func(v qv) qv { return qv(kind + g.tag + rsep + string(v)) }
}

func (g gens) two(kind string) func(a, b qv) qv {
	return func(a, b qv) qv {
		if g.sort && a > b {
			a, b = b, a
		}
		return qv(kind + g.tag + rsep + string(a) + rsep + string(b))
	}
}

func (g gens) pref() func(p, a, b qv) qv {
	return func(p, a, b qv) qv {
		return qv("fp" + g.tag + rsep + string(p) + rsep + string(a) + rsep + string(b))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
