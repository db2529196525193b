package main

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The contracts name a few things of the code that mean nothing to its users:
// local variables and loops in invariants, unexported helpers and fields. When
// one of these is gone, the baseline (what the tree the contracts were written
// for calls them) tells what to look for instead: the thing of the same type,
// signature or place that has a new name. A wrong choice can only make a proof
// fail, as invariants and contracts are proved of whatever they are attached to.
type baseline struct {
	Locals  map[string][]localDecl `json:"locals"`  // function -> its variables in order
	Structs map[string][]string    `json:"structs"` // type -> its fields
	Sigs    map[string]string      `json:"sigs"`    // function -> its signature
	Flat    map[string][]loopName  `json:"loops"`   // function -> the loops it runs, helpers included, in order
}
type localDecl struct {
	Name string `json:"n"`
	Type string `json:"t"`
}
type loopName struct {
	Fn  string `json:"fn"`
	Ord int    `json:"ord"`
}

var (
	base0   baseline
	fnAlias = map[string]string{} // new name -> name in the contracts
)

func typeStr(t types.Type) string { return types.TypeString(t, nil) }

// locals lists the variables of a function in the order of their declarations.
func locals(fn *ssa.Function) []localDecl {
	seen := map[types.Object]bool{}
	var vs []types.Object
	add := func(o types.Object) {
		if v, ok := o.(*types.Var); ok && !seen[o] && !v.IsField() && v.Name() != "_" && v.Name() != "" {
			seen[o] = true
			vs = append(vs, o)
		}
	}
	for _, p := range fn.Params {
		if p.Object() != nil {
			add(p.Object())
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if _, ok := d.Expr.(*ast.Ident); ok && d.Object() != nil && d.Object().Parent() != nil && d.Object().Pkg() != nil && d.Object().Parent() != d.Object().Pkg().Scope() {
					add(d.Object())
				}
			}
		}
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	var r []localDecl
	for _, v := range vs {
		r = append(r, localDecl{v.Name(), typeStr(v.Type())})
	}
	return r
}

// flatLoops lists the loops fn runs, those of helpers at the place of the call.
func flatLoops(fn *ssa.Function) []loopName {
	seen := map[loopName]bool{}
	var r []loopName
	var rec func(fn *ssa.Function, depth int)
	rec = func(fn *ssa.Function, depth int) {
		if depth > 8 || fn == nil || fn.Blocks == nil || !inRepo(fn) {
			return
		}
		type item struct {
			pos int
			l   *Loop
			fn  *ssa.Function
		}
		var items []item
		for _, l := range findLoops(fn) {
			items = append(items, item{pos: loopPos(l), l: l})
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						items = append(items, item{pos: int(in.Pos())*1000 + 999, fn: f})
					}
				}
			}
		}
		sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
		for _, it := range items {
			if it.l != nil {
				n := loopName{fnName(fn), it.l.ord}
				if !seen[n] {
					seen[n] = true
					r = append(r, n)
				}
			} else {
				rec(it.fn, depth+1)
			}
		}
	}
	rec(fn, 0)
	return r
}

func sigOf(f *ssa.Function) string {
	s := typeStr(f.Signature)
	if r := f.Signature.Recv(); r != nil {
		s = typeStr(r.Type()) + " " + s
	}
	// parameter names do not matter
	var sb strings.Builder
	if r := f.Signature.Recv(); r != nil {
		sb.WriteString(typeStr(r.Type()))
	}
	sb.WriteByte('(')
	for i := 0; i < f.Signature.Params().Len(); i++ {
		sb.WriteString(typeStr(f.Signature.Params().At(i).Type()) + ",")
	}
	sb.WriteByte(')')
	for i := 0; i < f.Signature.Results().Len(); i++ {
		sb.WriteString(typeStr(f.Signature.Results().At(i).Type()) + ",")
	}
	return sb.String()
}

func pkgOf(name string) string {
	n := strings.TrimLeft(name, "(*")
	if i := strings.LastIndex(n, "/"); i >= 0 {
		if j := strings.IndexByte(n[i:], '.'); j >= 0 {
			return n[:i+j]
		}
	}
	return strings.SplitN(n, ".", 2)[0]
}

func (w *World) record() *baseline {
	b := &baseline{map[string][]localDecl{}, map[string][]string{}, map[string]string{}, map[string][]loopName{}}
	for n, f := range w.fns {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		b.Sigs[n] = sigOf(f)
		if l := flatLoops(f); len(l) > 0 {
			b.Flat[n] = l
			b.Locals[n] = locals(f)
		}
	}
	for _, p := range w.pkgs {
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if s, ok := t.Type().Underlying().(*types.Struct); ok {
					var fs []string
					for i := 0; i < s.NumFields(); i++ {
						fs = append(fs, s.Field(i).Name())
					}
					b.Structs[typeStr(t.Type())] = fs
				}
			}
		}
	}
	return b
}

func (b *baseline) write(file string) error {
	s, err := json.MarshalIndent(b, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(s, '\n'), 0o644)
}

// rename finds the new names of functions that are gone.
func (w *World) rename(specDir string) {
	s, err := os.ReadFile(filepath.Join(specDir, "names.json"))
	if err != nil || json.Unmarshal(s, &base0) != nil {
		return
	}
	var gone, fresh []string
	for n := range base0.Sigs {
		if w.fns[n] == nil {
			gone = append(gone, n)
		}
	}
	for n, f := range w.fns {
		if base0.Sigs[n] == "" && f.Blocks != nil && f.Synthetic == "" {
			fresh = append(fresh, n)
		}
	}
	sort.Strings(gone)
	sort.Strings(fresh)
	used := map[string]bool{}
	for _, g := range gone {
		var c []string
		for _, n := range fresh {
			if !used[n] && pkgOf(n) == pkgOf(g) && sigOf(w.fns[n]) == base0.Sigs[g] {
				c = append(c, n)
			}
		}
		if len(c) > 1 {
			// the one with as many loops
			var d []string
			for _, n := range c {
				if len(flatLoops(w.fns[n])) == len(base0.Flat[g]) {
					d = append(d, n)
				}
			}
			c = d
		}
		if len(c) == 1 {
			used[c[0]] = true
			f := w.fns[c[0]]
			fnAlias[c[0]] = g
			delete(w.fns, c[0])
			w.fns[g] = f
		}
	}
}

// loopKey says where the contracts look for the invariants of a loop.
func (x *Exec) loopKey(fn *ssa.Function, ord int) (string, int) {
	if x.topFn == nil {
		return fnName(fn), ord
	}
	if x.loopMap == nil {
		x.loopMap = map[loopName]loopName{}
		cur, old := flatLoops(x.topFn), base0.Flat[fnName(x.topFn)]
		same := len(cur) == len(old)
		for i := range cur {
			if same {
				x.loopMap[cur[i]] = old[i]
			}
		}
	}
	if n, ok := x.loopMap[loopName{fnName(fn), ord}]; ok {
		return n.Fn, n.Ord
	}
	return fnName(fn), ord
}

// alternatives lists the variables of fn that may be what the invariants of
// owner call name.
func alternatives(fn *ssa.Function, owner, name string) []string {
	old := base0.Locals[owner]
	oldName := map[string]bool{}
	typ := ""
	for _, d := range old {
		oldName[d.Name] = true
		if d.Name == name && typ == "" {
			typ = d.Type
		}
	}
	if typ == "" {
		return nil
	}
	cur := locals(fn)
	curName := map[string]bool{}
	for _, d := range cur {
		curName[d.Name] = true
	}
	k, n := -1, 0
	for _, d := range old {
		if d.Type == typ && !curName[d.Name] {
			if d.Name == name && k < 0 {
				k = n
			}
			n++
		}
	}
	var fresh, rest []string
	for _, d := range cur {
		if d.Type == typ {
			if !oldName[d.Name] {
				fresh = append(fresh, d.Name)
			} else if fnName(fn) != owner {
				rest = append(rest, d.Name)
			}
		}
	}
	var r []string
	if k >= 0 && k < len(fresh) {
		r = append(r, fresh[k])
	}
	return append(append(r, fresh...), rest...)
}

// oldField is the index of a field that has a new name now, -1 if unknown.
func oldField(names []string, f string) int {
	_, at := oldStruct(names, f)
	return at
}

// oldName is the name the contracts have for field i.
func oldName(names []string, i int) string {
	if old, _ := oldStruct(names, ""); old != nil {
		return old[i]
	}
	return names[i]
}

// oldStruct is the struct of the baseline that has most fields in common with
// the one of these names, among those with a field f.
func oldStruct(names []string, f string) (old []string, at int) {
	best := 0
	at = -1
	var keys []string
	for t := range base0.Structs {
		keys = append(keys, t)
	}
	sort.Strings(keys)
	for _, t := range keys {
		fs := base0.Structs[t]
		if len(fs) != len(names) {
			continue
		}
		k, same := -1, 0
		for i := range fs {
			if fs[i] == f {
				k = i
			}
			if fs[i] == names[i] {
				same++
			}
		}
		if (k >= 0 || f == "") && (same > best || old == nil) {
			best, at, old = same, k, fs
		}
	}
	return old, at
}
