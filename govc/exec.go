package main

// Symbolic execution of go/ssa functions: regions between a branch and its
// immediate post-dominator are merged, calls are inlined unless a contract is
// registered for the callee, loops are summarised (loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obj struct {
	val  Value
	typ  types.Type
	mut  bool // stores are allowed (made by this function, not shared)
	name string

	guard *Term // when the pointer to it is not nil
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type State struct {
	pc     []*Term
	facts  []*Term
	heap   map[int]*Obj
	env    map[ssa.Value]Value
	ghost  map[string]Value
	defers []*deferred
	used   map[int]bool // ownership tokens spent (never changed in place)
}

func (s *State) clone() *State {
	n := &State{used: s.used, pc: append([]*Term{}, s.pc...), facts: append([]*Term{}, s.facts...), defers: append([]*deferred{}, s.defers...)}
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.env = make(map[ssa.Value]Value, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.ghost = make(map[string]Value, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}
func (s *State) assume(t *Term) {
	for _, c := range conjuncts(t) {
		if !c.isTrue() {
			s.facts = append(s.facts, c)
		}
	}
}
func (s *State) path(t *Term) { s.pc = append(s.pc, conjuncts(t)...) }
func (s *State) hyps() []*Term {
	return append(append([]*Term{}, s.facts...), s.pc...)
}

type Outcome struct {
	st   *State
	blk  *ssa.BasicBlock // reached block (nil: returned)
	pred *ssa.BasicBlock
	rets []Value
}

type Oblig struct {
	Name   string
	Fn     string
	Kind   string // ensures, panic, loop, requires, lemma, ownership
	Props  []string
	hyps   []*Term
	goal   *Term
	Pos    string
	Status string
	Solver string
	Secs   float64
	Output string
	Stmt   string
	script string
	tagged string // the same query with tags
}

type Frame struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*Loop
	depth int
}

type Exec struct {
	callers []caller
	loopMap map[loopName]loopName
	prog    *ssa.Program
	spec    *Spec
	quiet   int
	obls    []*Oblig
	gen     []*Term // generic loop variables in scope
	objCnt  *int
	stack   []*ssa.Function
	cur     *Contract
	topFn   *ssa.Function
	globals map[*ssa.Global]int
	base    map[int]*Obj
	notes   map[string]bool // assumptions used
	budget  int
	entry   *State
	topEnv  map[string]Value
	site    []string
	local   int
	calls   []callRec
}

// callRec is a call decided by contract, kept for proofs that refer to its result.
type callRec struct {
	name string
	rets []Value
}

func (x *Exec) note(s string) { x.notes[s] = true }

func (x *Exec) newObj(st *State, v Value, t types.Type, name string) int {
	*x.objCnt++
	st.heap[*x.objCnt] = &Obj{val: v, typ: t, mut: true, name: name}
	return *x.objCnt
}

// siteName gives a name determined by the program point (inlining stack,
// unrolling counters, instruction), so that repeated passes over a loop body
// name the same unknowns alike.
func (x *Exec) siteName(base string) string {
	x.local++
	k := strings.Join(x.site, "/") + fmt.Sprintf("#%d", x.local)
	id, ok := siteIDs[k]
	if !ok {
		id = len(siteIDs)
		siteIDs[k] = id
	}
	return fmt.Sprintf("%s@%d", base, id)
}

var siteIDs = map[string]int{}

func (x *Exec) at(in any) func() {
	x.site = append(x.site, fmt.Sprintf("%p", in))
	l := x.local
	x.local = 0
	return func() { x.site = x.site[:len(x.site)-1]; x.local = l }
}
func (x *Exec) freshT(base, sort string) *Term {
	return mkApp(x.siteName(base), sort, x.gen...)
}
func (x *Exec) freshV(base string, t types.Type) Value {
	return symValue(t, x.siteName(base), func(p, s string) *Term { return mkApp(p, s, x.gen...) })
}

func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if x.quiet > 0 {
		return
	}
	if goal.isTrue() && kind == "panic" {
		return
	}
	o := &Oblig{Name: name, Kind: kind, goal: goal, hyps: st.hyps(), Fn: fnName(x.topFn)}
	if pos.IsValid() {
		p := x.prog.Fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
	}
	x.obls = append(x.obls, o)
}

// noPanic: the goal must hold here; afterwards it may be assumed.
func (x *Exec) noPanic(st *State, what string, goal *Term, pos token.Pos) {
	if goal.isTrue() {
		return
	}
	for _, p := range st.pc {
		if p == goal {
			return
		}
	}
	x.oblige(st, "panic", what, goal, pos)
	st.assume(mkImp(mkAnd(st.pc...), goal))
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := strings.ReplaceAll(f.RelString(nil), modPath+"/", "")
	if a, ok := fnAlias[s]; ok {
		return a
	}
	return s
}

// ---------------------------------------------------------------- heap access

func (x *Exec) load(st *State, p Value, pos token.Pos) Value {
	pv, ok := p.(*PtrV)
	if !ok {
		if iv, ok := p.(*IfaceV); ok && iv.term != nil {
			fail("load through an opaque pointer %s", iv.term)
		}
		fail("load through %T", p)
	}
	o := st.heap[pv.obj]
	if o == nil {
		fail("dangling object")
	}
	if o.guard != nil {
		x.noPanic(st, "pointer is not nil", o.guard, pos)
	}
	v := o.val
	for _, e := range pv.path {
		v = x.project(st, v, e)
	}
	return v
}
func (x *Exec) project(st *State, v Value, e PathEl) Value {
	if e.index != nil {
		switch l := v.(type) {
		case *ListV:
			return l.index(e.index)
		}
		fail("index into %T", v)
	}
	s, ok := v.(*StructV)
	if !ok {
		if u, ok := v.(*UnknownV); ok {
			fail("field of an unknown value: %s", u.why)
		}
		fail("field of %T", v)
	}
	return s.F[e.field]
}
func (x *Exec) store(st *State, p Value, v Value) {
	pv, ok := p.(*PtrV)
	if !ok {
		fail("store through %T", p)
	}
	o := st.heap[pv.obj]
	if !o.mut {
		fail("store into shared object %s", o.name)
	}
	n := *o
	n.val = storePath(o.val, pv.path, v)
	st.heap[pv.obj] = &n
}
func storePath(old Value, path []PathEl, v Value) Value {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.index != nil {
		l, ok := old.(*ListV)
		if !ok {
			fail("indexed store into %T", old)
		}
		return l.update(e.index, func(o Value) Value { return storePath(o, path[1:], v) })
	}
	s, ok := old.(*StructV)
	if !ok {
		fail("field store into %T", old)
	}
	n := &StructV{names: s.names, F: append([]Value{}, s.F...)}
	n.F[e.field] = storePath(s.F[e.field], path[1:], v)
	return n
}

// materialise gives a slice that is written in place its own object. The slice
// must be the only live reference to its storage.
func (x *Exec) materialise(st *State, t *ssa.IndexAddr) {
	written := false
	for _, r := range *t.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(t) {
			written = true
		}
	}
	l, ok := st.env[t.X].(*ListV)
	if !written || !ok {
		return
	}
	if l.own <= 0 {
		if x.quiet == 0 {
			x.oblige(st, "ownership", "a store into a slice writes only memory this function owns", tFalse, t.Pos())
		}
	} else if h := otherHolder(st, l, t, true); h != "" {
		fail("store into a slice that may share its storage with %s", h)
	}
	sl := &SliceV{obj: x.newObj(st, l, t.X.Type(), "slice")}
	for v, val := range st.env {
		if val == Value(l) {
			st.env[v] = sl
		}
	}
}

// otherHolder names something that may refer to the storage of l and is still
// used after the instruction.
func otherHolder(st *State, l *ListV, at ssa.Instruction, same bool) string {
	var shares func(v Value) bool
	shares = func(v Value) bool {
		switch y := v.(type) {
		case *ListV:
			return !(same && y == l) && y.own != 0 && len(y.segs) > 0 && y.elem != nil && l.elem != nil && types.Identical(y.elem, l.elem)
		case *StructV:
			for _, f := range y.F {
				if shares(f) {
					return true
				}
			}
		case *TupleV:
			for _, f := range y.vs {
				if shares(f) {
					return true
				}
			}
		}
		return false
	}
	for v, val := range st.env {
		if shares(val) && usedAfter(v, at) {
			return v.Name()
		}
	}
	over := setBack(st, at)
	for id, o := range st.heap {
		if o.mut && id != over && shares(o.val) {
			return o.name
		}
	}
	return ""
}

// setBack is the variable that in v = v[i:j] is read for this slice
// expression and set to its result before anything can read it again.
func setBack(st *State, at ssa.Instruction) int {
	t, ok := at.(*ssa.Slice)
	if !ok {
		return -1
	}
	ld, ok := t.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return -1
	}
	p, ok := st.env[ld.X].(*PtrV)
	if !ok || len(p.path) > 0 {
		return -1
	}
	after := false
	for _, in := range t.Block().Instrs {
		if in == at {
			after = true
			continue
		}
		if !after {
			continue
		}
		switch y := in.(type) {
		case *ssa.Store:
			if y.Addr == ld.X && y.Val == ssa.Value(t) {
				return p.obj
			}
			return -1
		case *ssa.DebugRef:
		default:
			return -1
		}
	}
	return -1
}

// usedAfter: the value v has at the instruction may be read after it.
func usedAfter(v ssa.Value, at ssa.Instruction) bool {
	rs := v.Referrers()
	d, ok := v.(ssa.Instruction)
	if rs == nil || !ok || v.Parent() != at.Parent() {
		return true
	}
	// blocks entered after the instruction without passing the definition again
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock)
	reach = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !seen[s] && s != d.Block() {
				seen[s] = true
				reach(s)
			}
		}
	}
	reach(at.Block())
	for _, r := range *rs {
		switch p := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			for i, e := range p.Edges {
				if b := p.Block().Preds[i]; e == v && (seen[b] || b == at.Block()) {
					return true
				}
			}
			continue
		}
		if seen[r.Block()] {
			return true
		}
		if r.Block() == at.Block() {
			after := false
			for _, in := range r.Block().Instrs {
				if in == r && after {
					return true
				}
				after = after || in == at
			}
		}
	}
	return false
}

// list returns the content of a slice/array value.
func (x *Exec) list(st *State, v Value) *ListV {
	switch l := v.(type) {
	case *ListV:
		return l
	case *SliceV:
		return x.list(st, st.heap[l.obj].val)
	case *Term:
		if l.sort == SStr {
			return strPieces(l)
		}
		if l.sort == SRef {
			return &ListV{segs: []*Seg{baseSeg(l)}}
		}
	case *PtrV:
		return x.list(st, x.load(st, l, token.NoPos))
	}
	fail("slice expected, got %T", v)
	return nil
}

// deep replaces references to mutable slices by their current content.
func (x *Exec) deep(st *State, v Value) Value {
	switch l := v.(type) {
	case *SliceV:
		return x.deep(st, st.heap[l.obj].val)
	case *StructV:
		n := &StructV{names: l.names, idx: l.idx}
		for _, f := range l.F {
			n.F = append(n.F, x.deep(st, f))
		}
		return n
	case *TupleV:
		n := &TupleV{}
		for _, f := range l.vs {
			n.vs = append(n.vs, x.deep(st, f))
		}
		return n
	case *ListV:
		if l.elem == nil {
			return l
		}
		return &ListV{elem: l.elem, segs: x.deepSegs(st, l.segs), id: l.id, own: l.own}
	case *IfaceV:
		if l.val != nil {
			c := *l
			c.val = x.deep(st, l.val)
			return &c
		}
	}
	return v
}
func (x *Exec) deepSegs(st *State, ss []*Seg) []*Seg {
	var r []*Seg
	for _, s := range ss {
		c := *s
		if s.kind == sLit {
			c.val = x.deep(st, s.val)
		}
		if s.kind == sComp {
			c.body = x.deepSegs(st, s.body)
		}
		r = append(r, &c)
	}
	return r
}

// ---------------------------------------------------------------- evaluation

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constValue(c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Global:
		return x.globalPtr(st, c)
	case *ssa.Builtin:
		return &FuncV{term: mkVar("builtin:"+c.Name(), SFn)}
	}
	r, ok := st.env[v]
	if !ok {
		fail("undefined register %s in %s", v.Name(), v.Parent())
	}
	return r
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return strLit(string(rune(n)))
			}
			return mkInt(n)
		}
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	}
	return &UnknownV{"constant " + c.String()}
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Value {
	id, ok := x.globals[g]
	if !ok {
		*x.objCnt++
		id = *x.objCnt
		x.globals[g] = id
		t := g.Type().(*types.Pointer).Elem()
		var v Value
		if isErrorType(t) {
			v = mkVar("errNew:global:"+g.String(), SErr)
		} else {
			v = symValue(t, "global:"+g.String(), func(p, s string) *Term { return mkVar(p, s) })
		}
		x.base[id] = &Obj{val: v, typ: t, name: g.String()}
	}
	if st.heap[id] == nil {
		st.heap[id] = x.base[id]
	}
	return &PtrV{obj: id}
}

// known decides a condition from the path condition alone.
func known(st *State, c *Term) *Term {
	if c.isTrue() || c.isFalse() {
		return c
	}
	nc := mkNot(c)
	for _, p := range st.pc {
		if p == c {
			return tTrue
		}
		if p == nc {
			return tFalse
		}
	}
	if c.op == OAnd || c.op == OOr || c.op == ONot {
		in := map[*Term]bool{}
		for _, p := range st.pc {
			in[p] = true
		}
		return knownIn(c, in)
	}
	return c
}

// knownIn evaluates a condition as far as the path condition decides its parts;
// a part that stays open stays as it is.
func knownIn(c *Term, in map[*Term]bool) *Term {
	if in[c] {
		return tTrue
	}
	if in[mkNot(c)] {
		return tFalse
	}
	switch c.op {
	case OAnd, OOr:
		args := make([]*Term, len(c.args))
		for i, a := range c.args {
			args[i] = knownIn(a, in)
		}
		if c.op == OAnd {
			return mkAnd(args...)
		}
		return mkOr(args...)
	}
	return c
}

// ---------------------------------------------------------------- control

type stopSet map[*ssa.BasicBlock]bool

func (x *Exec) frame(fn *ssa.Function) *Frame {
	return &Frame{fn: fn, loops: findLoops(fn)}
}

// run executes from the start of block b (entered from pred) until a stop
// block or a return.
func (x *Exec) run(fr *Frame, st *State, b, pred *ssa.BasicBlock, stops stopSet, inLoop *ssa.BasicBlock) []Outcome {
	for {
		if stops[b] && b != inLoop {
			return []Outcome{{st: st, blk: b, pred: pred}}
		}
		if l := fr.loops[b]; l != nil && b != inLoop {
			outs := x.loop(fr, st, l, pred, stops)
			var res []Outcome
			for _, o := range outs {
				if o.blk == nil {
					res = append(res, o)
					continue
				}
				res = append(res, x.run(fr, o.st, o.blk, o.pred, stops, nil)...)
			}
			return res
		}
		if b != inLoop {
			x.phis(st, b, pred)
		}
		inLoop = nil
		return x.instrs(fr, st, b, b.Instrs, stops)
	}
}

func (x *Exec) phis(st *State, b, pred *ssa.BasicBlock) {
	var idx = -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var vs []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(st, p.Edges[idx]))
	}
	for i, p := range ps {
		st.env[p] = vs[i]
	}
}

func (x *Exec) instrs(fr *Frame, st *State, b *ssa.BasicBlock, ins []ssa.Instruction, stops stopSet) []Outcome {
	for n, in := range ins {
		x.budget--
		if x.budget < 0 {
			fail("execution budget exhausted")
		}
		switch t := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return x.run(fr, st, b.Succs[0], b, stops, nil)
		case *ssa.If:
			return x.branch(fr, st, b, T(x.val(st, t.Cond)), stops)
		case *ssa.Return:
			var rs []Value
			for _, r := range t.Results {
				rs = append(rs, x.val(st, r))
			}
			return []Outcome{{st: st, rets: rs}}
		case *ssa.Panic:
			x.oblige(st, "panic", "explicit panic is unreachable", tFalse, t.Pos())
			return nil
		case *ssa.RunDefers:
			sts := x.runDefers(st)
			if len(sts) == 1 {
				st = sts[0]
				continue
			}
			var outs []Outcome
			for _, s := range sts {
				outs = append(outs, x.instrs(fr, s, b, ins[n+1:], stops)...)
			}
			return outs
		case *ssa.Call:
			pop := x.at(t)
			outs := x.call(st, &t.Call, t, t.Pos())
			pop()
			if len(outs) == 1 {
				st = outs[0].st
				st.env[t] = retValue(outs[0].rets, t.Type())
				continue
			}
			var res []Outcome
			for _, o := range outs {
				o.st.env[t] = retValue(o.rets, t.Type())
				res = append(res, x.instrs(fr, o.st, b, ins[n+1:], stops)...)
			}
			return res
		default:
			pop := x.at(t)
			x.step(st, in)
			pop()
		}
	}
	fail("block without terminator")
	return nil
}

func retValue(rs []Value, t types.Type) Value {
	if _, ok := t.(*types.Tuple); ok {
		return &TupleV{rs}
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return &TupleV{rs}
}

func (x *Exec) branch(fr *Frame, st *State, b *ssa.BasicBlock, c *Term, stops stopSet) []Outcome {
	c = known(st, c)
	if c.isTrue() {
		return x.run(fr, st, b.Succs[0], b, stops, nil)
	}
	if c.isFalse() {
		return x.run(fr, st, b.Succs[1], b, stops, nil)
	}
	if os.Getenv("GOVC_BR") != "" {
		fmt.Fprintf(os.Stderr, "branch %s %.300s\n   pc %.600s\n", fr.fn.Name(), c.String(), mkAnd(st.pc...).String())
	}
	j := ipdom(fr.fn, b)
	s2 := stops
	if j != nil && !stops[j] {
		s2 = stopSet{}
		for k := range stops {
			s2[k] = true
		}
		s2[j] = true
	}
	n0, f0 := len(st.pc), len(st.facts)
	var outs []Outcome
	for i := 0; i < 2; i++ {
		s := st.clone()
		cc := c
		if i == 1 {
			cc = mkNot(c)
		}
		s.path(cc)
		outs = append(outs, x.run(fr, s, b.Succs[i], b, s2, nil)...)
	}
	if j == nil || stops[j] {
		return outs
	}
	var at, rest []Outcome
	for _, o := range outs {
		if o.blk == j {
			at = append(at, o)
		} else {
			rest = append(rest, o)
		}
	}
	if len(at) == 0 {
		return rest
	}
	groups := x.mergeAt(fr, at, j, n0, f0)
	for _, s := range groups {
		rest = append(rest, x.runAfterPhis(fr, s.st, j, s.pred, stops)...)
	}
	return rest
}

// runAfterPhis continues at block j with the phis already set when pred==nil.
func (x *Exec) runAfterPhis(fr *Frame, st *State, j, pred *ssa.BasicBlock, stops stopSet) []Outcome {
	if pred != nil {
		return x.run(fr, st, j, pred, stops, nil)
	}
	if fr.loops[j] != nil {
		fail("merge into a loop header")
	}
	return x.instrs(fr, st, j, j.Instrs, stops)
}

// mergeAt merges the states reaching block j.
func (x *Exec) mergeAt(fr *Frame, at []Outcome, j *ssa.BasicBlock, n0, f0 int) []Outcome {
	if len(at) == 1 {
		return at
	}
	if fr.loops[j] != nil {
		samePred := true
		for _, o := range at {
			samePred = samePred && o.pred == at[0].pred
		}
		if !samePred {
			return at
		}
	}
	sts := make([]*State, len(at))
	for i, o := range at {
		sts[i] = o.st
		if fr.loops[j] == nil {
			x.phis(o.st, j, o.pred)
		}
	}
	m := x.mergeStates(sts, n0, f0)
	if m == nil {
		if fr.loops[j] == nil {
			for i := range at {
				at[i].pred = nil
			}
		}
		return at
	}
	if fr.loops[j] != nil {
		return []Outcome{{st: m, blk: j, pred: at[0].pred}}
	}
	return []Outcome{{st: m, blk: j}}
}

// mergeStates joins states that share the path condition prefix n0 and fact
// prefix f0. Returns nil when values cannot be merged.
func (x *Exec) mergeStates(sts []*State, n0, f0 int) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	conds := make([]*Term, len(sts))
	for i, s := range sts {
		conds[i] = mkAnd(s.pc[n0:]...)
	}
	r := &State{heap: map[int]*Obj{}, env: map[ssa.Value]Value{}, ghost: map[string]Value{}}
	r.used = sts[0].used
	for _, s := range sts[1:] {
		for t := range s.used {
			r.takeOwn(t)
		}
	}
	r.pc = append(r.pc, sts[0].pc[:n0]...)
	r.pc = append(r.pc, conjuncts(orConds(conds))...)
	r.facts = append(r.facts, sts[0].facts[:f0]...)
	for i, s := range sts {
		for _, f := range s.facts[f0:] {
			r.assume(mkImp(conds[i], f))
		}
	}
	for i := range sts {
		if len(sts[i].defers) != len(sts[0].defers) {
			return nil
		}
	}
	r.defers = sts[0].defers
	for id, o := range sts[0].heap {
		vals := make([]Value, 0, len(sts))
		for _, s := range sts {
			if so := s.heap[id]; so != nil {
				vals = append(vals, so.val)
			}
		}
		if len(vals) != len(sts) {
			// allocated on some paths only
			vs := o
			r.heap[id] = vs
			continue
		}
		v, ok := mergeV(conds, vals)
		if !ok {
			return nil
		}
		n := *o
		n.val = v
		r.heap[id] = &n
	}
	for _, s := range sts[1:] {
		for id, o := range s.heap {
			if r.heap[id] == nil {
				r.heap[id] = o
			}
		}
	}
	for k, v := range sts[0].env {
		vals := []Value{v}
		ok := true
		for _, s := range sts[1:] {
			w, has := s.env[k]
			if !has {
				ok = false
				break
			}
			vals = append(vals, w)
		}
		if !ok {
			continue
		}
		m, mok := mergeV(conds, vals)
		if !mok {
			if _, isPhi := k.(*ssa.Phi); isPhi {
				return nil
			}
			continue
		}
		r.env[k] = m
	}
	for _, s := range sts {
		for k := range s.ghost {
			if strings.HasPrefix(k, "chosen:") {
				r.ghost[k] = tTrue
			}
		}
	}
	for k, v := range sts[0].ghost {
		if strings.HasPrefix(k, "chosen:") {
			continue
		}
		vals := []Value{v}
		for _, s := range sts[1:] {
			vals = append(vals, s.ghost[k])
		}
		m, ok := mergeV(conds, vals)
		if !ok {
			return nil
		}
		r.ghost[k] = m
	}
	return r
}

// orConds simplifies a disjunction of path conditions.
func orConds(cs []*Term) *Term {
	if len(cs) == 2 {
		a, b := conjuncts(cs[0]), conjuncts(cs[1])
		if len(a) == 1 && len(b) >= 1 || len(b) == 1 && len(a) >= 1 {
			if len(a) > 1 {
				a, b = b, a
			}
			// a | (!a & rest) = a | rest
			na := mkNot(a[0])
			var rest []*Term
			hit := false
			for _, y := range b {
				if y == na {
					hit = true
					continue
				}
				rest = append(rest, y)
			}
			if hit {
				return mkOr(a[0], mkAnd(rest...))
			}
		}
	}
	// factor complementary pairs with a common prefix
	for i := range cs {
		for j := range cs {
			if i == j {
				continue
			}
			a, b := conjuncts(cs[i]), conjuncts(cs[j])
			if len(a) == 0 || len(a) != len(b) {
				continue
			}
			same := true
			for k := 0; k < len(a)-1; k++ {
				same = same && a[k] == b[k]
			}
			if same && a[len(a)-1] == mkNot(b[len(b)-1]) {
				n := []*Term{mkAnd(a[:len(a)-1]...)}
				for k := range cs {
					if k != i && k != j {
						n = append(n, cs[k])
					}
				}
				return orConds(n)
			}
		}
	}
	return mkOr(cs...)
}

// ---------------------------------------------------------------- calls

func (x *Exec) runDefers(st *State) []*State {
	ds := st.defers
	st.defers = nil
	sts := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		defer x.at(d.call)()
		var next []*State
		for _, s := range sts {
			for _, o := range x.callValue(s, d.call, d.fn, d.args, nil, token.NoPos) {
				next = append(next, o.st)
			}
		}
		sts = next
	}
	return sts
}

func (x *Exec) call(st *State, c *ssa.CallCommon, instr *ssa.Call, pos token.Pos) []Outcome {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	var fv Value
	if c.IsInvoke() {
		fv = x.val(st, c.Value)
	} else {
		switch c.Value.(type) {
		case *ssa.Builtin:
			return one(st, x.builtin(st, c, args, pos))
		}
		fv = x.val(st, c.Value)
	}
	return x.callValue(st, c, fv, args, instr, pos)
}
func one(st *State, vs ...Value) []Outcome { return []Outcome{{st: st, rets: vs}} }

func (x *Exec) callValue(st *State, c *ssa.CallCommon, fv Value, args []Value, instr *ssa.Call, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		iv, ok := fv.(*IfaceV)
		if !ok {
			if t, ok := fv.(*Term); ok && t.sort == SErr && c.Method.Name() == "Error" {
				return one(st, mkApp("errText", SStr, t))
			}
			fail("invoke on %T", fv)
		}
		if iv.typ != nil {
			fn := x.prog.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				fail("no method %s on %s", c.Method.Name(), iv.typ)
			}
			return x.callFn(st, fn, append([]Value{iv.val}, args...), nil, instr, pos)
		}
		return x.invoke(st, c, iv, args, pos)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		fail("call of %T", fv)
	}
	if f.fn != nil {
		return x.callFn(st, f.fn, args, f.binds, instr, pos)
	}
	// an unknown function value: pure and deterministic (trusted, noted)
	x.noPanic(st, "function value is not nil", mkNot(mkEq(f.term, mkVar("nil:Fn", SFn))), pos)
	x.note("function-valued fields and parameters supplied by the user are pure: equal arguments give equal results")
	sig := c.Signature()
	return one(st, x.applyOpaque(st, "call", f.term, args, sig)...)
}

func (x *Exec) applyOpaque(st *State, name string, f *Term, args []Value, sig *types.Signature) []Value {
	ts := []*Term{f}
	for _, a := range args {
		ts = append(ts, x.flat(st, x.deep(st, a))...)
	}
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		n := name
		if sig.Results().Len() > 1 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		for _, t := range ts[1:] {
			n += ":" + t.sort
		}
		rs = append(rs, symValue(sig.Results().At(i).Type(), n, func(p, s string) *Term { return mkApp(p+"/"+s, s, ts...) }))
	}
	return rs
}

// flat lists the scalar terms that determine a value.
func (x *Exec) flat(st *State, v Value) []*Term {
	switch y := v.(type) {
	case *Term:
		return []*Term{y}
	case *StructV:
		var r []*Term
		for _, f := range y.F {
			r = append(r, x.flat(st, f)...)
		}
		return r
	case *ListV:
		if y.elem == nil {
			return []*Term{strTerm(y)}
		}
		return []*Term{listRef(y)}
	case *SliceV:
		return x.flat(st, x.deep(st, y))
	case *IfaceV:
		if y.term != nil {
			return []*Term{y.term}
		}
		ts := x.flat(st, x.deep(st, y.val))
		return []*Term{mkApp("mk:"+y.typ.String(), SObj, append([]*Term{}, ts...)...)}
	case *FuncV:
		if y.term != nil {
			return []*Term{y.term}
		}
		return []*Term{mkVar("fn:"+y.fn.String(), SFn)}
	case *PtrV:
		return []*Term{mkVar(fmt.Sprintf("ptr:%d", y.obj), SObj)}
	}
	fail("value %T cannot be passed to an opaque function", v)
	return nil
}

// listRef names a list value by a reference term.
func listRef(l *ListV) *Term {
	if len(l.segs) == 1 && l.segs[0].kind == sBase && l.segs[0].guard.isTrue() && l.segs[0].lo == mkInt(0) && l.segs[0].hi == lenRef(l.segs[0].ref) {
		return l.segs[0].ref
	}
	return listTerm(l)
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, binds []Value, instr *ssa.Call, pos token.Pos) []Outcome {
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") {
		// method wrappers are executed like ordinary functions
	}
	name := fnName(fn)
	if ct := x.spec.contracts[name]; ct != nil && ct.atCalls && !(x.cur == ct && len(x.stack) == 1 && false) {
		return x.callContract(st, fn, ct, args, pos)
	}
	if outs, ok := x.external(st, fn, args, instr, pos); ok {
		return outs
	}
	if fn.Blocks == nil {
		fail("no model for external function %s", fn)
	}
	if !inRepo(fn) {
		fail("no model for external function %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			fail("recursive call of %s without a contract", name)
		}
	}
	return x.inline(st, fn, args, binds)
}

func inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return f.Synthetic != "" && f.Blocks != nil
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

// caller is a function that waits for an inlined call to return.
type caller struct {
	fn   *ssa.Function
	env  map[ssa.Value]Value
	args []Value // of the call
}

func (x *Exec) callerFn() *ssa.Function {
	if len(x.stack) < 2 {
		return x.topFn
	}
	return x.stack[len(x.stack)-2]
}

func (x *Exec) inline(st *State, fn *ssa.Function, args, binds []Value) []Outcome {
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if len(x.stack) > 40 {
		fail("inlining too deep")
	}
	saveEnv, saveDef := st.env, st.defers
	x.callers = append(x.callers, caller{fn: x.callerFn(), env: saveEnv, args: args})
	defer func() { x.callers = x.callers[:len(x.callers)-1] }()
	st.env = map[ssa.Value]Value{}
	st.defers = nil
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[p] = binds[i]
	}
	n0, f0 := len(st.pc), len(st.facts)
	fr := x.frame(fn)
	outs := x.run(fr, st, fn.Blocks[0], nil, stopSet{}, nil)
	// merge the returns
	rets := outs
	if len(outs) > 1 {
		if m := x.mergeRets(outs, n0, f0); m != nil {
			rets = m
		}
	}
	for i := range rets {
		e := make(map[ssa.Value]Value, len(saveEnv))
		for k, v := range saveEnv {
			e[k] = v
		}
		rets[i].st.env = e
		rets[i].st.defers = append([]*deferred{}, saveDef...)
	}
	return rets
}

func (x *Exec) mergeRets(outs []Outcome, n0, f0 int) []Outcome {
	sts := make([]*State, len(outs))
	conds := make([]*Term, len(outs))
	for i, o := range outs {
		sts[i] = o.st
		o.st.env = map[ssa.Value]Value{}
		o.st.defers = nil
		conds[i] = mkAnd(o.st.pc[n0:]...)
	}
	var rs []Value
	for k := range outs[0].rets {
		vs := make([]Value, len(outs))
		for i, o := range outs {
			vs[i] = o.rets[k]
		}
		v, ok := x.mergeAny(conds, vs, sts)
		if !ok {
			return nil
		}
		rs = append(rs, v)
	}
	m := x.mergeStates(sts, n0, f0)
	if m == nil {
		return nil
	}
	return []Outcome{{st: m, rets: rs}}
}
func (x *Exec) mergeAny(conds []*Term, vs []Value, sts []*State) (Value, bool) {
	// slices made on different paths: merge contents
	if _, ok := vs[0].(*SliceV); ok {
		same := true
		for _, v := range vs {
			same = same && sameV(v, vs[0])
		}
		if same {
			return vs[0], true
		}
	}
	mixed := false
	for _, v := range vs {
		if _, ok := v.(*SliceV); ok {
			mixed = true
		}
	}
	if mixed {
		ns := make([]Value, len(vs))
		for i, v := range vs {
			ns[i] = x.deep(sts[i], v)
		}
		vs = ns
	}
	return mergeV(conds, vs)
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, c *ssa.CallCommon, args []Value, pos token.Pos) Value {
	name := c.Value.(*ssa.Builtin).Name()
	switch name {
	case "len":
		if m, ok := args[0].(*MapRef); ok {
			// nothing else is known of how many keys a map has
			_ = m
			n := x.freshT("maplen", SInt)
			st.assume(mkGe0(n))
			return n
		}
		if isString(c.Args[0].Type()) {
			return mkApp("strlen", SInt, T(args[0]))
		}
		return x.list(st, args[0]).length()
	case "cap":
		t := x.freshT("cap", SInt)
		st.assume(mkLe(x.list(st, args[0]).length(), t))
		return t
	case "append":
		a := x.list(st, args[0])
		var b *ListV
		if isString(c.Args[1].Type()) {
			fail("append of a string to bytes")
		}
		b = x.list(st, args[1])
		if x.quiet == 0 && a.own <= 0 && len(b.segs) > 0 {
			x.oblige(st, "ownership", "append writes only memory this function owns", tFalse, pos)
		}
		if (a.own == ownDirty || st.takeOwn(a.own)) && len(b.segs) > 0 {
			x.oblige(st, "alias", "append does not overwrite what an earlier append to the same slice wrote", tFalse, pos)
		}
		r := concat(a, &ListV{elem: b.elem, segs: x.deepSegs(st, b.segs)})
		if a.own > 0 {
			r.own = a.own
			if len(b.segs) > 0 {
				r.own = newOwn()
			}
		}
		return r
	case "delete":
		m := args[0].(*MapRef)
		o := *st.heap[m.obj]
		mv := o.val.(*MapV)
		o.val = mv.del(flattenKey(args[1]))
		st.heap[m.obj] = &o
		return &TupleV{}
	case "min", "max":
		r := T(args[0])
		for _, a := range args[1:] {
			b := T(a)
			if name == "max" {
				r = mkIte(mkLe(r, b), b, r)
			} else {
				r = mkIte(mkLe(r, b), r, b)
			}
		}
		return r
	case "copy":
		dst, ok := args[0].(*SliceV)
		if !ok {
			fail("copy into a slice that is not owned")
		}
		src := x.list(st, args[1])
		o := *st.heap[dst.obj]
		old := o.val.(*ListV)
		ln := old.length()
		n := src.length()
		if n == ln {
			o.val = &ListV{elem: old.elem, segs: src.segs}
			st.heap[dst.obj] = &o
			return n
		}
		fail("copy of a different length")
	case "ssa:wrapnilchk":
		return args[0]
	}
	fail("builtin %s", name)
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// MapRef is a reference to a map object.
type MapRef struct{ obj int }

// ---------------------------------------------------------------- simple instructions

func (x *Exec) step(st *State, in ssa.Instruction) {
	set := func(v ssa.Value, r Value) { st.env[v] = r }
	switch t := in.(type) {
	case *ssa.Alloc:
		et := t.Type().(*types.Pointer).Elem()
		set(t, &PtrV{obj: x.newObj(st, x.zeroOf(st, et), et, t.Comment)})
	case *ssa.BinOp:
		set(t, x.binop(st, t))
	case *ssa.UnOp:
		v := x.val(st, t.X)
		switch t.Op {
		case token.MUL:
			set(t, x.load(st, v, t.Pos()))
		case token.SUB:
			set(t, mkNeg(T(v)))
		case token.NOT:
			set(t, mkNot(T(v)))
		default:
			fail("unary %s", t.Op)
		}
	case *ssa.Store:
		x.store(st, x.val(st, t.Addr), x.val(st, t.Val))
	case *ssa.FieldAddr:
		p, ok := x.val(st, t.X).(*PtrV)
		if !ok {
			fail("field address of %T", x.val(st, t.X))
		}
		if o := st.heap[p.obj]; o != nil && o.guard != nil {
			x.noPanic(st, "pointer is not nil", o.guard, t.Pos())
		}
		set(t, &PtrV{obj: p.obj, path: append(append([]PathEl{}, p.path...), PathEl{field: t.Field})})
	case *ssa.Field:
		s, ok := x.val(st, t.X).(*StructV)
		if !ok {
			fail("field of %T", x.val(st, t.X))
		}
		set(t, s.F[t.Field])
	case *ssa.IndexAddr:
		i := T(x.val(st, t.Index))
		x.materialise(st, t)
		base := x.val(st, t.X)
		l := x.list(st, base)
		x.noPanic(st, "index in range", mkAnd(mkGe0(i), mkLt(i, l.length())), t.Pos())
		switch b := base.(type) {
		case *SliceV:
			set(t, &PtrV{obj: b.obj, path: []PathEl{{index: i}}})
		case *PtrV:
			set(t, &PtrV{obj: b.obj, path: append(append([]PathEl{}, b.path...), PathEl{index: i})})
		default:
			// read-only element of an immutable list
			id := x.newObj(st, l.index(i), nil, "element")
			st.heap[id].mut = false
			set(t, &PtrV{obj: id})
		}
	case *ssa.Index:
		i := T(x.val(st, t.Index))
		l := x.list(st, x.val(st, t.X))
		x.noPanic(st, "index in range", mkAnd(mkGe0(i), mkLt(i, l.length())), t.Pos())
		set(t, l.index(i))
	case *ssa.Slice:
		set(t, x.sliceOp(st, t))
	case *ssa.MakeSlice:
		n := T(x.val(st, t.Len))
		x.noPanic(st, "make: length not negative", mkGe0(n), t.Pos())
		et := t.Type().Underlying().(*types.Slice).Elem()
		k := freshVar("k", SInt)
		l := &ListV{elem: et, own: ownFull}
		if T(x.val(st, t.Cap)) != n {
			l.own = newOwn() // room to append in place
		}
		if n == mkInt(0) {
			// no element to write to: a value like []T{}
			set(t, l)
			break
		}
		l.segs = []*Seg{compSeg(k, mkInt(0), n, tTrue, []*Seg{litSeg(x.zeroOf(st, et))}, false)}
		set(t, &SliceV{obj: x.newObj(st, l, t.Type(), "make")})
	case *ssa.MakeMap:
		set(t, &MapRef{obj: x.newObj(st, emptyMap(t.Type().Underlying().(*types.Map)), t.Type(), "map")})
	case *ssa.MapUpdate:
		m, ok := x.val(st, t.Map).(*MapRef)
		if !ok {
			fail("update of a map that is not owned")
		}
		o := *st.heap[m.obj]
		o.val = o.val.(*MapV).put(flattenKey(x.val(st, t.Key)), x.val(st, t.Value))
		st.heap[m.obj] = &o
	case *ssa.Lookup:
		if isString(t.X.Type()) {
			fail("indexing a string")
		}
		var mv *MapV
		switch m := x.val(st, t.X).(type) {
		case *MapRef:
			mv = st.heap[m.obj].val.(*MapV)
		case *MapV:
			mv = m
		default:
			fail("lookup in %T", m)
		}
		has, v := mv.at(flattenKey(x.val(st, t.Index)))
		r, ok := mergeV([]*Term{has, mkNot(has)}, []Value{v, zeroValue(mv.elem)})
		if !ok {
			fail("map element cannot be merged with zero")
		}
		if t.CommaOk {
			set(t, &TupleV{[]Value{r, has}})
		} else {
			set(t, r)
		}
	case *ssa.Extract:
		tv, ok := x.val(st, t.Tuple).(*TupleV)
		if !ok {
			fail("extract from %T", x.val(st, t.Tuple))
		}
		set(t, tv.vs[t.Index])
	case *ssa.ChangeType:
		set(t, x.val(st, t.X))
	case *ssa.ChangeInterface:
		set(t, x.val(st, t.X))
	case *ssa.MakeInterface:
		v := x.val(st, t.X)
		if isErrorType(t.Type()) {
			set(t, mkApp("errNew:"+t.X.Type().String(), SErr, x.flat(st, v)...))
			break
		}
		set(t, &IfaceV{typ: t.X.Type(), val: v, st: t.Type()})
	case *ssa.Convert:
		v := x.val(st, t.X)
		from, to := t.X.Type(), t.Type()
		switch {
		case isInteger(from) && isInteger(to):
			set(t, v)
		case isString(from) && isString(to):
			set(t, v)
		case isInteger(from) && isString(to):
			set(t, mkApp("runeStr", SStr, T(v)))
			if n := T(v); n.isInt() {
				set(t, strLit(string(rune(n.ival))))
			}
		default:
			set(t, x.convert(st, v, from, to))
		}
	case *ssa.MakeClosure:
		f := &FuncV{fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			f.binds = append(f.binds, x.val(st, b))
		}
		set(t, f)
	case *ssa.Defer:
		var args []Value
		for _, a := range t.Call.Args {
			args = append(args, x.val(st, a))
		}
		st.defers = append(st.defers, &deferred{&t.Call, x.val(st, t.Call.Value), args})
	case *ssa.TypeAssert:
		set(t, x.typeAssert(st, t))
	case *ssa.Range:
		switch m := x.val(st, t.X).(type) {
		case *MapRef:
			set(t, &MapIterV{obj: m.obj})
		default:
			fail("range over %T", m)
		}
	default:
		fail("instruction %T", in)
	}
}

// zeroOf is the zero value; map/slice fields are nil.
func (x *Exec) zeroOf(st *State, t types.Type) Value { return zeroValue(t) }

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) binop(st *State, t *ssa.BinOp) Value {
	a, b := x.val(st, t.X), x.val(st, t.Y)
	switch t.Op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b, t.X.Type())
		if t.Op == token.NEQ {
			e = mkNot(e)
		}
		return e
	}
	if isString(t.X.Type()) {
		if t.Op == token.ADD {
			return catStr(a, b)
		}
		fail("string operation %s", t.Op)
	}
	p, q := T(a), T(b)
	switch t.Op {
	case token.ADD:
		return mkAdd(p, q)
	case token.SUB:
		return mkSub(p, q)
	case token.MUL:
		return mkMul(p, q)
	case token.LSS:
		return mkLt(p, q)
	case token.LEQ:
		return mkLe(p, q)
	case token.GTR:
		return mkLt(q, p)
	case token.GEQ:
		return mkLe(q, p)
	case token.AND, token.LAND:
		if p.sort == SBool {
			return mkAnd(p, q)
		}
	case token.OR, token.LOR:
		if p.sort == SBool {
			return mkOr(p, q)
		}
	case token.QUO, token.REM:
		x.noPanic(st, "division by zero", mkNot(mkEq(q, mkInt(0))), t.Pos())
		return mkApp("op"+t.Op.String(), SInt, p, q)
	case token.SHL, token.SHR:
		x.noPanic(st, "negative shift", mkLe(mkInt(0), q), t.Pos())
	}
	if p.sort == SInt && q.sort == SInt {
		// nothing is known of the result
		return mkApp("op"+t.Op.String(), SInt, p, q)
	}
	fail("binary %s", t.Op)
	return nil
}

func (x *Exec) equal(st *State, a, b Value, t types.Type) *Term {
	// comparisons with nil
	switch t.Underlying().(type) {
	case *types.Slice:
		l, ok1 := a.(*ListV)
		r, ok2 := b.(*ListV)
		if ok1 && ok2 {
			if len(r.segs) == 0 {
				if len(l.segs) == 0 && l.id == nil {
					return tTrue
				}
				if len(l.segs) == 1 && l.segs[0].kind == sBase {
					return mkApp("isnil", SBool, l.segs[0].ref)
				}
			}
		}
		if _, ok := a.(*SliceV); ok {
			return tFalse
		}
		fail("slice compared with nil")
	case *types.Map:
		if _, ok := a.(*MapRef); ok {
			return tFalse
		}
		fail("map compared with nil")
	case *types.Pointer:
		if _, ok := a.(*PtrV); ok {
			if iv, ok := b.(*IfaceV); ok && iv.term != nil {
				return tFalse
			}
		}
	}
	return eqV(a, b)
}

func (x *Exec) sliceOp(st *State, t *ssa.Slice) Value {
	base := x.val(st, t.X)
	if isString(t.X.Type()) {
		fail("slicing a string")
	}
	l := x.list(st, base)
	n := l.length()
	lo, hi := mkInt(0), n
	if t.Low != nil {
		lo = T(x.val(st, t.Low))
	}
	if t.High != nil {
		hi = T(x.val(st, t.High))
	}
	full := t.Low == nil && t.High == nil
	if p, ok := base.(*PtrV); ok && full {
		// slice of a whole array variable
		o := st.heap[p.obj]
		if len(p.path) == 0 {
			if o.name == "slicelit" || o.name == "varargs" {
				r := &ListV{elem: l.elem, segs: x.deepSegs(st, l.segs), own: ownFull}
				return r
			}
			if o.name == "makeslice" {
				no := *o
				nl := *l
				nl.own = ownFull
				no.val = &nl
				st.heap[p.obj] = &no
				return &SliceV{obj: p.obj}
			}
			return &SliceV{obj: p.obj}
		}
	}
	if full && t.Max == nil {
		return base
	}
	// upper bound may extend up to the capacity: require the length
	clip := t.Low == nil && hi == n
	if !clip {
		x.noPanic(st, "slice bounds in range", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), t.Pos())
	}
	if t.Max != nil && !(clip && T(x.val(st, t.Max)) == n) {
		m := T(x.val(st, t.Max))
		x.noPanic(st, "slice bounds in range", mkAnd(mkLe(hi, m), mkLe(m, n)), t.Pos())
	}
	if s, ok := base.(*SliceV); ok {
		// an alias of a mutable slice: content is copied, stores are refused from now on
		o := *st.heap[s.obj]
		if o.name != "pathslice" {
			o.mut = false
			st.heap[s.obj] = &o
		}
	}
	r := l.sub(lo, hi)
	c := *r
	c.segs = x.deepSegs(st, r.segs)
	c.own = l.own
	if hi != n {
		c.own = ownDirty
		if l.own > 0 && otherHolder(st, l, t, false) == "" {
			// nobody can see the longer slice any more
			c.own = newOwn()
		}
	}
	if t.Max != nil && t.High != nil && T(x.val(st, t.Max)) == hi {
		c.own = ownFull
	}
	return &c
}

// ---------------------------------------------------------------- CFG helpers

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	exits  stopSet
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := m[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					m[h] = l
				}
				var add func(n *ssa.BasicBlock)
				add = func(n *ssa.BasicBlock) {
					if l.blocks[n] {
						return
					}
					l.blocks[n] = true
					for _, p := range n.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	var hs []*Loop
	for _, l := range m {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool { return loopPos(hs[i]) < loopPos(hs[j]) })
	for i, l := range hs {
		l.ord = i
		l.exits = stopSet{}
		for b := range l.blocks {
			for _, s := range b.Succs {
				if !l.blocks[s] {
					l.exits[s] = true
				}
			}
		}
	}
	loopCache[fn] = m
	return m
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

func loopPos(l *Loop) int {
	best := 1 << 60
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && int(p) < best {
				best = int(p)
			}
		}
	}
	// outer loops first
	return best*1000 + 999 - len(l.blocks)
}

var pdomCache = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

// ipdom is the immediate post-dominator, nil for the virtual exit.
func ipdom(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	m, ok := pdomCache[fn]
	if !ok {
		n := len(fn.Blocks)
		// post-dominator sets by iteration
		all := make([]map[int]bool, n)
		for i, bb := range fn.Blocks {
			all[i] = map[int]bool{}
			if len(bb.Succs) == 0 {
				all[i][i] = true
			} else {
				for j := 0; j < n; j++ {
					all[i][j] = true
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for i := n - 1; i >= 0; i-- {
				bb := fn.Blocks[i]
				if len(bb.Succs) == 0 {
					continue
				}
				s := map[int]bool{}
				for k := range all[bb.Succs[0].Index] {
					in := true
					for _, su := range bb.Succs[1:] {
						in = in && all[su.Index][k]
					}
					if in {
						s[k] = true
					}
				}
				s[i] = true
				if len(s) != len(all[i]) {
					all[i] = s
					ch = true
				}
			}
		}
		m = map[*ssa.BasicBlock]*ssa.BasicBlock{}
		for i, bb := range fn.Blocks {
			for k := range all[i] {
				if k == i {
					continue
				}
				// immediate: post-dominated by all others
				ok := true
				for q := range all[i] {
					if q != i && q != k && !all[k][q] {
						ok = false
					}
				}
				if ok {
					m[bb] = fn.Blocks[k]
				}
			}
		}
		pdomCache[fn] = m
	}
	return m[b]
}
