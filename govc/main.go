package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	modPath = "github.com/jtcaraball/goexpdt"
	repoDir = "/repo"

	deadline time.Time // no query starts after it
	maxOpen  = 12      // nor after this many undischarged obligations
)

type World struct {
	prog  *ssa.Program
	pkgs  []*ssa.Package
	fns   map[string]*ssa.Function
	spec  *Spec
	globs map[*ssa.Global]int
	base  map[int]*Obj
	cnt   int
	axT   []*Term
}

func loadWorld(specDir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repoDir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./cnf/...", "./query/...", "./compute/...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w := &World{prog: prog, pkgs: pkgs, fns: map[string]*ssa.Function{}, globs: map[*ssa.Global]int{}, base: map[int]*Obj{}}
	for _, p := range pkgs {
		if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
		}
	}
	add := func(f *ssa.Function) {
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			w.fns[fnName(f)] = f
			for _, a := range f.AnonFuncs {
				rec(a)
			}
		}
		rec(f)
	}
	for _, p := range pkgs {
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						add(f)
					}
				}
				// promoted methods
				if _, isI := n.Underlying().(*types.Interface); isI || n.TypeParams().Len() > 0 {
					continue
				}
				ms := prog.MethodSets.MethodSet(types.NewPointer(n))
				for i := 0; i < ms.Len(); i++ {
					if len(ms.At(i).Index()) > 1 {
						if f := prog.MethodValue(ms.At(i)); f != nil && w.fns[fnName(f)] == nil {
							w.fns[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	w.rename(specDir)
	w.spec, err = loadSpec(specDir)
	if err != nil {
		return nil, err
	}
	w.spec.clauseT = types.NewSlice(types.Typ[types.Int])
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		switch p.Pkg.Path() {
		case modPath + "/query":
			if t := p.Type("Node"); t != nil {
				w.spec.nodeType = t.Type()
			}
			if t := p.Type("QConst"); t != nil {
				w.spec.constType = t.Type()
			}
		case modPath + "/cnf":
			if t := p.Type("Clause"); t != nil {
				w.spec.clauseT = t.Type()
			}
		}
	}
	return w, nil
}

func (w *World) exec() *Exec {
	return &Exec{prog: w.prog, spec: w.spec, objCnt: &w.cnt, globals: w.globs, base: w.base, notes: map[string]bool{}, budget: 400000}
}

// initGlobals interprets the package initialisers of the repository.
func (w *World) initGlobals() {
	for _, p := range w.pkgs {
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		init := p.Func("init")
		if init == nil {
			continue
		}
		x := w.exec()
		st := newState()
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				x.globalPtr(st, g)
				o := *st.heap[w.globs[g]]
				o.mut = true
				t := g.Type().(*types.Pointer).Elem()
				if !isErrorType(t) {
					o.val = zeroValue(t)
				}
				st.heap[w.globs[g]] = &o
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			for _, b := range init.Blocks[1:] {
				for _, in := range b.Instrs {
					switch t := in.(type) {
					case *ssa.Call:
						if f, ok := t.Call.Value.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init") {
							continue
						}
						outs := x.call(st, &t.Call, t, t.Pos())
						st = outs[0].st
						st.env[t] = retValue(outs[0].rets, t.Type())
					case *ssa.Store:
						if g, ok := t.Addr.(*ssa.Global); ok && (g.Name() == "init$guard" || isErrorType(g.Type().(*types.Pointer).Elem())) {
							continue
						}
						x.step(st, in)
					case *ssa.Jump, *ssa.Return, *ssa.DebugRef:
					default:
						x.step(st, in)
					}
				}
			}
		}()
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				id := w.globs[g]
				o := *st.heap[id]
				o.mut = false
				o.val = disown(x.deep(st, o.val))
				w.base[id] = &o
			}
		}
	}
}

// disown marks the storage of a value as shared.
func disown(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{names: x.names, idx: x.idx}
		for _, f := range x.F {
			n.F = append(n.F, disown(f))
		}
		return n
	case *ListV:
		c := *x
		c.own = 0
		if len(x.segs) == 0 {
			c.own = x.own
		}
		c.segs = nil
		for _, s := range x.segs {
			d := *s
			if s.kind == sLit {
				d.val = disown(s.val)
			}
			c.segs = append(c.segs, &d)
		}
		return &c
	}
	return v
}

// typeNamed finds a type of the module by its package path (below the module) and name.
func typeNamed(prog *ssa.Program, n string) types.Type {
	i := strings.LastIndex(n, ".")
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == modPath+"/"+n[:i] {
			if o := p.Pkg.Scope().Lookup(n[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, env: map[ssa.Value]Value{}, ghost: map[string]Value{}}
}

// reify turns maps and pointers inside a symbolic argument into heap objects.
func (x *Exec) reify(st *State, v Value, t types.Type, path string) Value {
	switch u := t.Underlying().(type) {
	case *types.Map:
		if m, ok := v.(*MapV); ok {
			return &MapRef{obj: x.newObj(st, m, t, path)}
		}
	case *types.Struct:
		if s, ok := v.(*StructV); ok {
			n := &StructV{names: s.names, idx: s.idx}
			for i, f := range s.F {
				n.F = append(n.F, x.reify(st, f, u.Field(i).Type(), path+"."+oldName(s.names, i)))
			}
			return n
		}
	case *types.Pointer:
		et := u.Elem()
		if _, ok := et.Underlying().(*types.Struct); ok || isSliceT(et) {
			iv := x.reify(st, symValue(et, path+"*", func(p, s string) *Term { return mkVar(p, s) }), et, path)
			return &PtrV{obj: x.newObj(st, iv, et, path)}
		}
	case *types.Slice:
		if x.cur != nil && x.ownedPath(path) {
			return &SliceV{obj: x.newObj(st, v, t, path)}
		}
	}
	return v
}

// ownedPath: the contract declares the slice at this place to be held by nobody else.
func (x *Exec) ownedPath(path string) bool {
	if x.topFn == nil || len(x.cur.inline) == 0 {
		return false
	}
	head, rest, _ := strings.Cut(path, ".")
	off := 0
	if x.topFn.Signature.Recv() != nil {
		off = 1
	}
	for i, p := range x.topFn.Params {
		if p.Name() == head {
			n := "recv"
			if i >= off {
				n = fmt.Sprintf("arg%d", i-off)
			}
			return x.cur.inline["own:"+n+"."+rest]
		}
	}
	return false
}
func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// ---------------------------------------------------------------- one contract

type Result struct {
	ct      *Contract
	obls    []*Oblig
	err     string
	notes   map[string]bool
	fn      string
	vacuous string
	gone    bool
	covers  []*Term
}

func (w *World) axiomTerms(x *Exec) []*Term {
	if w.axT == nil {
		st := newState()
		w.ghosts(st)
		e := &evalCtx{x: x, st: st, old: st, env: map[string]Value{}}
		w.axT = []*Term{}
		for _, a := range w.spec.axioms {
			w.axT = append(w.axT, e.b(a.e))
		}
	}
	return w.axT
}

func (w *World) ghosts(st *State) {
	st.ghost["sigma"] = mkVar("sigma0", SObj)
	st.ghost["topv"] = mkVar("topv0", SInt)
	// the file written: its path, its content so far, whether an operation failed
	st.ghost["filePath"] = mkVar("filePath0", SStr)
	st.ghost["file"] = mkVar("file0", SStr)
	st.ghost["ioFailed"] = tFalse
	for _, g := range w.spec.ghosts {
		st.ghost[g[0]] = mkVar(g[0]+"0", baseSort(g[1]))
	}
}

func (w *World) verify(ct *Contract) (res *Result) {
	res = &Result{ct: ct}
	x := w.exec()
	res.notes = x.notes
	x.cur = ct
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.err = u.msg
				res.obls = x.obls
				return
			}
			panic(r)
		}
	}()
	st := newState()
	w.ghosts(st)
	st.assume(mkGe0(st.ghost["topv"].(*Term)))
	ax := w.axiomTerms(x)
	_ = ax
	if ct.lemma {
		return w.verifyLemma(x, ct, st, res)
	}
	fn := w.fns[ct.name]
	if fn == nil {
		id := ct.name[strings.LastIndexByte(ct.name, '.')+1:]
		if ct.atCalls && !ast.IsExported(id) {
			// a helper that is gone: its callers are verified with what replaced it
			res.gone = true
			return res
		}
		res.err = "function " + ct.name + " not found"
		return res
	}
	x.topFn = fn
	res.fn = ct.name
	var args []Value
	for _, p := range fn.Params {
		v := symValue(p.Type(), p.Name(), func(pp, s string) *Term { return mkVar("a:"+pp, s) })
		args = append(args, x.reify(st, v, p.Type(), p.Name()))
	}
	env := paramEnv(fn, args)
	entry := st.clone()
	x.entry = entry
	e := &evalCtx{x: x, st: entry, old: entry, env: env}
	e.lets(ct.lets)
	x.topEnv = e.env
	splitLists = x.cur.paths
	defer func() { splitLists = false }()
	for _, r := range ct.requires {
		g := e.b(r.e)
		st.assume(g)
		// a string known to be a literal is that literal from the start
		for _, c := range conjuncts(g) {
			if c.op == OEq && c.args[0].sort == SStr {
				a, b := c.args[0], c.args[1]
				if _, ok := isStrLit(a); ok {
					a, b = b, a
				}
				if _, ok := isStrLit(b); ok && a.op == OVar {
					substState(st, a, b)
					for i, v := range args {
						args[i] = substV(v, map[*Term]*Term{a: b})
					}
					st.assume(c)
				}
			}
		}
	}
	entry.facts = append([]*Term{}, st.facts...)
	x.stack = append(x.stack, fn)
	x.site = []string{ct.name}
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	fr := x.frame(fn)
	outs := x.run(fr, st, fn.Blocks[0], nil, stopSet{}, nil)
	for oi, o := range outs {
		pe := &evalCtx{x: x, st: o.st, old: entry, env: e.env}
		pe = pe.with()
		for i, r := range o.rets {
			v := x.deep(o.st, r)
			pe.env[fmt.Sprintf("ret%d", i)] = v
			if fn.Signature.Results().Len() > i && fn.Signature.Results().At(i).Name() != "" {
				pe.env["ret_"+fn.Signature.Results().At(i).Name()] = v
			}
		}
		for ci, c := range ct.ensures {
			if c.free {
				continue
			}
			name := fmt.Sprintf("%s: ensures %s", ct.name, c.label)
			if c.label == "" {
				name = fmt.Sprintf("%s: ensures %d", ct.name, ci)
			}
			if len(outs) > 1 {
				name += fmt.Sprintf(" (return %d)", oi)
			}
			props := c.props
			if props == nil {
				props = ct.props
			}
			x.prove(o.st, pe, c, "ensures", name, fn.Pos(), props)
		}
	}
	if len(outs) == 0 {
		res.err = "no return reached"
	}
	if contractProps(ct)["C18"] {
		o := &Oblig{Name: ct.name + ": every other store goes to memory this function allocated", Kind: "frame", goal: tTrue, Fn: fnName(fn), Props: []string{"C18"}}
		x.setPos(o, fn.Pos())
		x.obls = append(x.obls, o)
	}
	res.obls = x.obls
	for _, o := range x.obls {
		if o.Props == nil {
			o.Props = ct.props
		}
		if !strings.Contains(o.Name, ct.name) {
			o.Name = ct.name + ": " + o.Name
		}
	}
	// vacuity: some return must be reachable under the preconditions
	var covers []*Term
	for _, o := range outs {
		covers = append(covers, mkAnd(o.st.hyps()...))
	}
	res.covers = covers
	res.vacuous = smtScript(append(append([]*Term{}, w.axT...), mkOr(covers...)), tFalse)
	return res
}

func (w *World) verifyLemma(x *Exec, ct *Contract, st *State, res *Result) *Result {
	x.entry = st
	env := map[string]Value{}
	for _, p := range ct.params {
		env[p.name] = wrapSort(x, mkVar("a:"+p.name, baseSort(p.sort)), p.sort)
	}
	e := &evalCtx{x: x, st: st, old: st, env: env}
	e.lets(ct.lets)
	for _, r := range ct.requires {
		st.assume(e.b(r.e))
	}
	for _, c := range ct.ensures {
		props := c.props
		if props == nil {
			props = ct.props
		}
		x.prove(st, e, c, "lemma", ct.name+": "+c.label, 0, props)
	}
	res.obls = x.obls
	for _, o := range x.obls {
		if o.Props == nil {
			o.Props = ct.props
		}
		o.Fn = "lemma " + ct.name
	}
	res.covers = []*Term{mkAnd(st.hyps()...)}
	res.vacuous = smtScript(append(append([]*Term{}, w.axT...), st.hyps()...), tFalse)
	return res
}

// ---------------------------------------------------------------- discharge

func dedupe(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, t := range ts {
		if !seen[t] && !t.isTrue() {
			seen[t] = true
			r = append(r, t)
		}
	}
	return r
}

func (w *World) discharge(obls []*Oblig, sec float64, verbose bool) {
	for _, o := range obls {
		if o.goal.isTrue() {
			o.Status, o.Solver = "discharged", "simplifier"
			continue
		}
		hit := false
		for _, h := range o.hyps {
			if h == o.goal || h.isFalse() {
				hit = true
			}
		}
		if hit {
			o.Status, o.Solver = "discharged", "simplifier"
			continue
		}
		hyps, goal := propagate(o.hyps, o.goal)
		for _, h := range hyps {
			hit = hit || h.isFalse() || h == goal
		}
		if hit || goal.isTrue() {
			o.Status, o.Solver = "discharged", "simplifier"
			continue
		}
		o.script = smtScript(dedupe(append(append([]*Term{}, w.axT...), hyps...)), goal)
		o.tagged = smtScriptTag(dedupe(append(append([]*Term{}, w.axT...), hyps...)), goal, true)
	}
	// equal scripts are solved once
	by := map[string][]*Oblig{}
	var keys []string
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		if by[o.script] == nil {
			keys = append(keys, o.script)
		}
		by[o.script] = append(by[o.script], o)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	open := 0
	sem := make(chan bool, 8)
	for _, k := range keys {
		k := k
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			stop := open >= maxOpen || time.Now().After(deadline)
			mu.Unlock()
			if stop {
				for _, o := range by[k] {
					o.Status, o.Output = "undischarged", "not attempted: too many obligations are open already"
				}
				return
			}
			r := solve(k, by[k][0].tagged, sec)
			if r.status != "unsat" {
				mu.Lock()
				open++
				mu.Unlock()
			}
			record(by[k], r)
		}()
	}
	wg.Wait()
	// a few that stay open may only have been slow: once more, one at a time,
	// longer and with other seeds
	if open > 4 {
		return
	}
	for _, k := range keys {
		if by[k][0].Status == "discharged" || time.Now().After(deadline) {
			continue
		}
		record(by[k], resolve(k, by[k][0].tagged, 3*sec))
	}
}

func record(obls []*Oblig, r solverRes) {
	for i, o := range obls {
		o.Status = "undischarged"
		if r.status == "unsat" {
			o.Status = "discharged"
		}
		o.Solver = r.solver
		if i == 0 {
			o.Secs += r.dur.Seconds()
		}
		o.Output = r.status + "\n" + r.output
	}
}

type summary struct {
	Property   string            `json:"property"`
	Functions  []string          `json:"functions_under_contract"`
	Lemmas     []string          `json:"lemmas"`
	Total      int               `json:"obligations"`
	Discharged int               `json:"discharged"`
	ByBackend  map[string]int    `json:"by_backend"`
	ByKind     map[string]int    `json:"by_kind"`
	SolverSecs float64           `json:"solver_seconds"`
	Wall       float64           `json:"wall_s"`
	Notes      []string          `json:"assumptions"`
	Trusted    []string          `json:"trusted"`
	Failed     []failedOb        `json:"failed"`
	Errors     map[string]string `json:"outside_reach"`
	Samples    []string          `json:"samples"`
	Vacuity    int               `json:"vacuity_checks"`
}
type failedOb struct {
	Name   string `json:"obligation"`
	Fn     string `json:"function"`
	Kind   string `json:"kind"`
	Pos    string `json:"position"`
	Stmt   string `json:"statement"`
	Goal   string `json:"goal"`
	Output string `json:"verifier_output"`
	Query  string `json:"query"`
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func contractProps(ct *Contract) map[string]bool {
	m := map[string]bool{}
	for _, p := range ct.props {
		m[p] = true
	}
	for _, e := range ct.ensures {
		for _, p := range e.props {
			m[p] = true
		}
	}
	return m
}

// obligProps: which properties an obligation counts for.
func obligFor(o *Oblig, ct *Contract, prop string) bool {
	switch o.Kind {
	case "panic":
		if contractProps(ct)["C17"] {
			return prop == "C17"
		}
		return has(ct.props, prop)
	case "alias", "requires":
		return contractProps(ct)[prop]
	case "ownership":
		if contractProps(ct)["C18"] {
			return prop == "C18"
		}
		return false
	}
	return has(o.Props, prop)
}

func main() {
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	prop := flag.String("prop", "", "property id")
	one := flag.String("contract", "", "verify a single contract (substring)")
	dump := flag.String("dump", "", "print the symbolic results of a function")
	sec := flag.Float64("t", 20, "seconds per query")
	specDir := flag.String("spec", "/verif/spec", "specification directory")
	out := flag.String("out", "", "write the JSON summary here")
	verbose := flag.Bool("v", false, "verbose")
	work := flag.String("work", "", "directory for solver queries")
	flag.StringVar(&repoDir, "repo", repoDir, "repository under verification")
	names := flag.Bool("names", false, "record the names of the code in the specification directory")
	sanity := flag.Bool("sanity", false, "try to prove false in place of every obligation")
	limit := flag.Float64("limit", 400, "seconds after which no further query starts")
	flag.IntVar(&maxOpen, "open", maxOpen, "undischarged queries after which no further query starts")
	flag.Parse()
	t0 := time.Now()
	deadline = t0.Add(time.Duration(*limit * float64(time.Second)))
	if *work == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			panic(err)
		}
		workDir = d
		defer os.RemoveAll(d)
	} else {
		workDir = *work
		os.MkdirAll(workDir, 0o755)
	}
	w, err := loadWorld(*specDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(2)
	}
	if *names {
		if err := w.record().write(filepath.Join(*specDir, "names.json")); err != nil {
			panic(err)
		}
		return
	}
	w.initGlobals()
	if *dump != "" {
		w.dump(*dump)
		return
	}
	sm := &summary{Property: *prop, ByBackend: map[string]int{}, ByKind: map[string]int{}, Errors: map[string]string{}}
	notes := map[string]bool{}
	var obls []*Oblig
	var results []*Result
	for _, n := range w.spec.order {
		ct := w.spec.contracts[n]
		if ct.noexec {
			continue
		}
		if *one != "" && !strings.Contains(n, *one) {
			continue
		}
		if *prop != "" && !contractProps(ct)[*prop] {
			continue
		}
		r := w.verify(ct)
		results = append(results, r)
		if r.err != "" {
			sm.Errors[n] = r.err
		}
		if ct.lemma {
			sm.Lemmas = append(sm.Lemmas, n)
		} else {
			sm.Functions = append(sm.Functions, n)
		}
		for k := range r.notes {
			notes[k] = true
		}
		cnt := 0
		for _, o := range r.obls {
			if *prop == "" || obligFor(o, ct, *prop) {
				obls = append(obls, o)
				cnt++
			}
		}
		if cnt == 0 && r.err == "" && !r.gone {
			sm.Errors[n] = "no obligations generated"
		}
	}
	if *sanity {
		// returns and starting points that contradictory hypotheses exclude
		for _, r := range results {
			for i, c := range r.covers {
				o := &Oblig{Name: fmt.Sprintf("%s: end %d", r.ct.name, i), script: smtScript(append(append([]*Term{}, w.axT...), c), tFalse)}
				if x := solve(o.script, "", *sec); x.status == "unsat" {
					fmt.Println("UNREACHABLE", x.solver, o.Name)
				} else {
					fmt.Println("ok", x.status, o.Name)
				}
			}
		}
		if *one == "" {
			return
		}
		// what contradictory hypotheses would discharge
		for i, o := range obls {
			o.hyps = append(o.hyps[:len(o.hyps):len(o.hyps)], mkEq(mkVar(fmt.Sprintf("sanity@%d", i), SBool), o.goal))
			o.goal = tFalse
		}
		maxOpen = 1 << 30
	}
	w.discharge(obls, *sec, *verbose)
	if *sanity {
		for _, o := range obls {
			if o.Status == "discharged" {
				fmt.Println("FALSE", o.Solver, o.Name, o.Pos)
			}
		}
		return
	}
	// vacuity
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, r := range results {
		if r.vacuous == "" {
			continue
		}
		r := r
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := runVacuity(r.vacuous)
			mu.Lock()
			defer mu.Unlock()
			sm.Vacuity++
			if h == "unsat" {
				sm.Errors[r.ct.name] = "vacuous: the preconditions exclude every return"
			}
		}()
	}
	wg.Wait()
	for _, o := range obls {
		sm.Total++
		sm.ByKind[o.Kind]++
		sm.SolverSecs += o.Secs
		if o.Status == "discharged" {
			sm.Discharged++
			sm.ByBackend[o.Solver]++
			if len(sm.Samples) < 6 && o.Kind == "ensures" && o.Solver != "simplifier" {
				sm.Samples = append(sm.Samples, o.Name+" ["+o.Solver+"]")
			}
		} else {
			sm.Failed = append(sm.Failed, failedOb{o.Name, o.Fn, o.Kind, o.Pos, o.Stmt, clipStr(o.goal.String(), 3000), clipStr(o.Output, 3000), clipStr(o.script, 60000)})
		}
		if *verbose {
			fmt.Printf("%-13s %-12s %6.2fs %s  %s\n", o.Status, o.Solver, o.Secs, o.Name, o.Pos)
		}
	}
	for k := range notes {
		sm.Notes = append(sm.Notes, k)
	}
	sort.Strings(sm.Notes)
	for _, a := range w.spec.axioms {
		if a.free {
			sm.Trusted = append(sm.Trusted, "axiom "+a.label+": "+strings.TrimSpace(a.text))
		}
	}
	sm.Wall = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(sm, "", " ")
		os.MkdirAll(filepath.Dir(*out), 0o755)
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s: %d/%d obligations discharged, %d contracts, %.1fs wall, %.1fs solver %v\n", *prop, sm.Discharged, sm.Total, len(results), sm.Wall, sm.SolverSecs, sm.ByBackend)
	for n, e := range sm.Errors {
		fmt.Printf("ERROR %s: %s\n", n, e)
	}
	for _, f := range sm.Failed {
		fmt.Printf("FAILED %s (%s)\n", f.Name, f.Pos)
		if *verbose {
			fmt.Printf("   goal: %s\n   %s\n", f.Goal, strings.ReplaceAll(f.Output, "\n", " | "))
		}
	}
	if len(sm.Failed) > 0 || len(sm.Errors) > 0 || sm.Total == 0 {
		os.Exit(1)
	}
}

func runVacuity(script string) string {
	r := solveFast(script, 2)
	return r.status
}

func (w *World) dump(name string) {
	fn := w.fns[name]
	if fn == nil {
		for n := range w.fns {
			if strings.Contains(n, name) {
				fmt.Println(n)
			}
		}
		return
	}
	x := w.exec()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				fmt.Println("unsupported:", u.msg)
				return
			}
			panic(r)
		}
	}()
	st := newState()
	w.ghosts(st)
	x.topFn = fn
	x.entry = st.clone()
	x.cur = w.spec.contracts[name]
	var args []Value
	for _, p := range fn.Params {
		v := symValue(p.Type(), p.Name(), func(pp, s string) *Term { return mkVar("a:"+pp, s) })
		args = append(args, x.reify(st, v, p.Type(), p.Name()))
	}
	x.topEnv = paramEnv(fn, args)
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	x.stack = append(x.stack, fn)
	for _, o := range x.run(x.frame(fn), st, fn.Blocks[0], nil, stopSet{}, nil) {
		fmt.Println("--- return")
		for _, p := range o.st.pc {
			fmt.Println("  path:", p)
		}
		for _, p := range o.st.facts {
			fmt.Println("  fact:", p)
		}
		for i, r := range o.rets {
			fmt.Printf("  ret%d: %s\n", i, showV(x.deep(o.st, r)))
		}
		fmt.Println("  topv:", showV(o.st.ghost["topv"]))
		fmt.Println("  sigma:", showV(o.st.ghost["sigma"]))
	}
	for _, o := range x.obls {
		fmt.Println("obligation:", o.Kind, o.Name, o.goal, o.Pos)
	}
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}
