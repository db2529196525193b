package main

// Symbolic values: scalars, structs, lists (slices/arrays/strings being
// built), maps as lambdas, pointers into the symbolic heap.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct {
	names []string
	F     []Value
	idx   *Term // ghost: index of this element in the model's node list
}

func (s *StructV) field(n string) Value {
	for i, x := range s.names {
		if x == n {
			return s.F[i]
		}
	}
	if i := oldField(s.names, n); i >= 0 {
		return s.F[i]
	}
	return nil
}

type segKind int

const (
	sLit segKind = iota
	sComp
	sBase
)

type Seg struct {
	kind   segKind
	guard  *Term
	val    Value  // sLit
	k      *Term  // sComp
	lo, hi *Term  // sComp, sBase
	body   []*Seg // sComp
	ref    *Term  // sBase
	rev    bool   // sComp enumerated downwards
}

type ListV struct {
	elem types.Type // nil: string pieces
	segs []*Seg
	id   *Term // optional identity of a whole opaque list
	own  int   // 0: the backing array may be shared with others; ownFull: ours, no spare capacity; above: ours, with a token
}

// ownership of the backing array of a list
const (
	ownDirty = -1 // a shorter view: an append writes over elements of the longer one
	ownFull  = 1
)

var ownNext int64 = ownFull
var ownPar sync.Map // token -> tokens it stands for

func newOwn(parents ...int) int {
	t := int(atomic.AddInt64(&ownNext, 1))
	if len(parents) > 0 {
		ownPar.Store(t, parents)
	}
	return t
}

// joinOwn: the ownership of a value that is one of several.
func joinOwn(os ...int) int {
	var ps []int
	same := true
	for _, o := range os {
		if o <= 0 {
			return o
		}
		same = same && o == os[0]
		if o != ownFull {
			ps = append(ps, o)
		}
	}
	if same {
		return os[0]
	}
	return newOwn(ps...)
}

// takeOwn marks a token as spent in st; it tells whether it was already.
func (st *State) takeOwn(o int) (again bool) {
	if o <= ownFull {
		return false
	}
	if st.used[o] {
		again = true
	}
	u := make(map[int]bool, len(st.used)+1)
	for k := range st.used {
		u[k] = true
	}
	u[o] = true
	st.used = u
	if ps, ok := ownPar.Load(o); ok {
		for _, p := range ps.([]int) {
			again = st.takeOwn(p) || again
		}
	}
	return again
}

type SliceV struct{ obj int } // whole-object view
type PathEl struct {
	field int
	index *Term
}
type PtrV struct {
	obj  int
	path []PathEl
}
type FuncV struct {
	fn    *ssa.Function
	binds []Value
	term  *Term
}
type IfaceV struct {
	typ  types.Type // dynamic type when known
	val  Value
	term *Term      // opaque
	st   types.Type // static interface type when opaque
}
type TupleV struct{ vs []Value }
type MapV struct {
	keys []*Term // lambda parameters
	has  *Term
	get  Value
	elem types.Type
}
type UnknownV struct{ why string }
type MapIterV struct {
	m   *MapV
	obj int
}

// NilV is an untyped nil of a pointer/slice/map/func type.

type unsupported struct{ msg string }

func fail(f string, a ...any) {
	if os.Getenv("GOVC_TRACE") != "" {
		debug.PrintStack()
	}
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func T(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *ListV:
		if x.elem == nil {
			return strTerm(x)
		}
	case *IfaceV:
		if x.term != nil {
			return x.term
		}
		if t, ok := x.val.(*Term); ok {
			return t
		}
	case *FuncV:
		if x.term != nil {
			return x.term
		}
	case *UnknownV:
		fail("use of an unknown value (%s)", x.why)
	}
	fail("scalar expected, got %T", v)
	return nil
}

func litSeg(v Value) *Seg { return &Seg{kind: sLit, guard: tTrue, val: v} }
func baseSeg(ref *Term) *Seg {
	return &Seg{kind: sBase, guard: tTrue, ref: ref, lo: mkInt(0), hi: lenRef(ref)}
}
func lenRef(ref *Term) *Term { return mkApp("len", SInt, ref) }
func compSeg(k, lo, hi *Term, guard *Term, body []*Seg, rev bool) *Seg {
	return &Seg{kind: sComp, guard: guard, k: k, lo: lo, hi: hi, body: body, rev: rev}
}
func guardSegs(g *Term, ss []*Seg) []*Seg {
	if g.isTrue() {
		return ss
	}
	if g.isFalse() {
		return nil
	}
	var r []*Seg
	for _, s := range ss {
		c := *s
		c.guard = mkAnd(g, s.guard)
		if !c.guard.isFalse() {
			r = append(r, &c)
		}
	}
	return r
}

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return SBool
		}
		if u.Info()&types.IsString != 0 {
			return SStr
		}
		if u.Info()&types.IsInteger != 0 {
			return SInt
		}
	case *types.Slice, *types.Map, *types.Array:
		return SRef
	case *types.Signature:
		return SFn
	case *types.Interface:
		if isErrorType(t) {
			return SErr
		}
		return SObj
	case *types.Pointer:
		return SObj
	}
	return ""
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// symValue builds a symbolic value of type t whose scalars are made by mk.
func symValue(t types.Type, path string, mk func(path, sort string) *Term) Value {
	if isBuilder(t) {
		return mk(path, SStr)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s.names = append(s.names, f.Name())
			s.F = append(s.F, symValue(f.Type(), path+"."+f.Name(), mk))
		}
		return s
	case *types.Slice:
		ref := mk(path, SRef)
		return &ListV{elem: u.Elem(), segs: []*Seg{baseSeg(ref)}}
	case *types.Array:
		ref := mk(path, SRef)
		s := baseSeg(ref)
		s.hi = mkInt(u.Len())
		return &ListV{elem: u.Elem(), segs: []*Seg{s}}
	case *types.Map:
		ref := mk(path, SRef)
		return symMap(u, ref)
	case *types.Signature:
		return &FuncV{term: mk(path, SFn)}
	case *types.Interface:
		if isErrorType(t) {
			return mk(path, SErr)
		}
		return &IfaceV{term: mk(path, SObj), st: t}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, symValue(u.At(i).Type(), fmt.Sprintf("%s.%d", path, i), mk))
		}
		return tv
	}
	if s := sortOf(t); s != "" {
		return mk(path, s)
	}
	return &UnknownV{"type " + t.String()}
}

func keySorts(t types.Type) []string {
	if st, ok := t.Underlying().(*types.Struct); ok {
		var r []string
		for i := 0; i < st.NumFields(); i++ {
			r = append(r, keySorts(st.Field(i).Type())...)
		}
		return r
	}
	return []string{sortOf(t)}
}

func flattenKey(v Value) []*Term {
	switch x := v.(type) {
	case *StructV:
		var r []*Term
		for _, f := range x.F {
			r = append(r, flattenKey(f)...)
		}
		return r
	}
	return []*Term{T(v)}
}

func symMap(u *types.Map, ref *Term) *MapV {
	m := &MapV{elem: u.Elem()}
	args := []*Term{ref}
	for i, s := range keySorts(u.Key()) {
		k := mkVar(fmt.Sprintf("%%k%d:%s", i, s), s)
		m.keys = append(m.keys, k)
		args = append(args, k)
	}
	m.has = mkApp("mhas:"+keySig(args), SBool, args...)
	m.get = symValue(u.Elem(), "mget:"+keySig(args), func(p, s string) *Term { return mkApp(p, s, args...) })
	return m
}
func emptyMap(u *types.Map) *MapV {
	m := &MapV{elem: u.Elem(), has: tFalse}
	for i, s := range keySorts(u.Key()) {
		m.keys = append(m.keys, mkVar(fmt.Sprintf("%%k%d:%s", i, s), s))
	}
	m.get = zeroValue(u.Elem())
	return m
}
func (m *MapV) at(key []*Term) (has *Term, val Value) {
	s := map[*Term]*Term{}
	for i, k := range m.keys {
		s[k] = key[i]
	}
	return subst(m.has, s), substV(m.get, s)
}
func keyEq(m *MapV, key []*Term) *Term {
	var cs []*Term
	for i, k := range m.keys {
		cs = append(cs, mkEq(k, key[i]))
	}
	return mkAnd(cs...)
}
func (m *MapV) put(key []*Term, v Value) *MapV {
	e := keyEq(m, key)
	g, ok := mergeV([]*Term{e, mkNot(e)}, []Value{v, m.get})
	if !ok {
		fail("map update with unmergeable value")
	}
	return &MapV{keys: m.keys, has: mkOr(e, m.has), get: g, elem: m.elem}
}
func (m *MapV) del(key []*Term) *MapV {
	e := keyEq(m, key)
	return &MapV{keys: m.keys, has: mkAnd(mkNot(e), m.has), get: m.get, elem: m.elem}
}

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder" || n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer")
}

func zeroValue(t types.Type) Value {
	if isBuilder(t) {
		return strLit("")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.names = append(s.names, u.Field(i).Name())
			s.F = append(s.F, zeroValue(u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		return &ListV{elem: u.Elem(), own: ownFull}
	case *types.Array:
		if u.Len() <= 16 {
			l := &ListV{elem: u.Elem()}
			for i := int64(0); i < u.Len(); i++ {
				l.segs = append(l.segs, litSeg(zeroValue(u.Elem())))
			}
			return l
		}
		k := freshVar("k", SInt)
		return &ListV{elem: u.Elem(), segs: []*Seg{compSeg(k, mkInt(0), mkInt(u.Len()), tTrue, []*Seg{litSeg(zeroValue(u.Elem()))}, false)}}
	case *types.Map:
		return emptyMap(u)
	case *types.Interface:
		if isErrorType(t) {
			return mkVar("nil:Err", SErr)
		}
		return &IfaceV{term: mkVar("nil:Obj", SObj), st: t}
	case *types.Signature:
		return &FuncV{term: mkVar("nil:Fn", SFn)}
	case *types.Pointer:
		return &IfaceV{term: mkVar("nil:Obj", SObj), st: t}
	}
	switch sortOf(t) {
	case SInt:
		return mkInt(0)
	case SBool:
		return tFalse
	case SStr:
		return mkVar("lit:", SStr)
	}
	return &UnknownV{"zero of " + t.String()}
}

// elemAt is the value of opaque list ref at index i.
func elemAt(ref *Term, elem types.Type, i *Term) Value {
	if elem == nil {
		return mkApp("at", SStr, ref, i)
	}
	v := symValue(elem, "at", func(p, s string) *Term {
		if _, ok := elem.Underlying().(*types.Struct); !ok {
			p = "at" + s
		}
		return mkApp(p, s, ref, i)
	})
	if s, ok := v.(*StructV); ok && isNodeType(elem) {
		s.idx = i
	}
	return v
}
func isNodeType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/query")
}

// ---------------------------------------------------------------- lists

func nonneg(t *Term) bool {
	l, ok := lower(t)
	return ok && l >= 0
}

var sumNonneg = map[string]bool{}

func span(lo, hi *Term) *Term {
	d := mkSub(hi, lo)
	if nonneg(d) {
		return d
	}
	return mkIte(mkLe(lo, hi), d, mkInt(0))
}

func segLen(s *Seg) *Term {
	var n *Term
	switch s.kind {
	case sLit:
		n = mkInt(1)
	case sBase:
		n = mkSub(s.hi, s.lo)
	case sComp:
		b := mkInt(0)
		for _, x := range s.body {
			b = mkAdd(b, segLen(x))
		}
		if b.isInt() {
			n = mkScale(b.ival, span(s.lo, s.hi))
		} else {
			n = mkSum(s.k, s.lo, s.hi, b)
		}
	}
	return mkIte(s.guard, n, mkInt(0))
}
func (l *ListV) length() *Term {
	r := mkInt(0)
	for _, s := range l.segs {
		r = mkAdd(r, segLen(s))
	}
	return r
}

// listAll: every element satisfies f.
func listAll(segs []*Seg, elem types.Type, f func(Value) *Term) *Term {
	var cs []*Term
	for _, s := range segs {
		var p *Term
		switch s.kind {
		case sLit:
			p = f(s.val)
		case sComp:
			k := freshVar(s.k.name, SInt)
			m := map[*Term]*Term{s.k: k}
			b := listAll(substSegs(s.body, m), elem, f)
			p = mkForall([]*Term{k}, mkImp(mkAnd(mkLe(s.lo, k), mkLt(k, s.hi), subst(s.guard, m)), b))
			cs = append(cs, p)
			continue
		case sBase:
			k := freshVar("i", SInt)
			p = mkForall([]*Term{k}, mkImp(mkAnd(mkLe(s.lo, k), mkLt(k, s.hi)), f(elemAt(s.ref, elem, k))))
		}
		cs = append(cs, mkImp(s.guard, p))
	}
	return mkAnd(cs...)
}
func listAny(segs []*Seg, elem types.Type, f func(Value) *Term) *Term {
	return mkNot(listAll(segs, elem, func(v Value) *Term { return mkNot(f(v)) }))
}

// index returns element i of the list.
func (l *ListV) index(i *Term) Value {
	off := mkInt(0)
	var conds []*Term
	var vals []Value
	var rest []*Term
	for n, s := range l.segs {
		c := *s
		if len(l.segs) == 1 {
			// the whole list is conditional: an in-range index implies the guard
			c.guard = tTrue
		} else if !s.guard.isTrue() && s.kind != sBase {
			return elemAt(listTerm(l), l.elem, i)
		}
		ln := segLen(&c)
		rel := mkSub(i, off)
		last := n == len(l.segs)-1
		in := mkLt(rel, ln)
		var v Value
		switch s.kind {
		case sLit:
			v = s.val
			in = mkEq(rel, mkInt(0))
		case sBase:
			v = elemAt(s.ref, l.elem, mkAdd(rel, s.lo))
		case sComp:
			if s.rev || len(s.body) != 1 || s.body[0].kind != sLit || !s.body[0].guard.isTrue() {
				return elemAt(listTerm(l), l.elem, i)
			}
			v = substV(s.body[0].val, map[*Term]*Term{s.k: mkAdd(rel, s.lo)})
		}
		if in.isTrue() && len(conds) == 0 {
			return v
		}
		if in.isFalse() {
			off = mkAdd(off, ln)
			continue
		}
		if last {
			in = tTrue
		}
		conds = append(conds, mkAnd(append(append([]*Term{}, rest...), in)...))
		rest = append(rest, mkNot(in))
		vals = append(vals, v)
		off = mkAdd(off, ln)
	}
	if len(vals) == 0 {
		if l.elem != nil {
			return elemAt(mkApp("emptyList", SRef), l.elem, i) // any value of the type
		}
		return &UnknownV{"index out of an empty list"}
	}
	elem0 := mergeElems
	mergeElems = true
	v, ok := mergeV(conds, vals)
	mergeElems = elem0
	if !ok {
		fail("index into a heterogeneous list")
	}
	return v
}

// isArrayLike: every element addressable by a single comprehension.
func (l *ListV) update(i *Term, f func(Value) Value) *ListV {
	if i.isInt() {
		// literal prefix
		off := int64(0)
		for n, s := range l.segs {
			if s.kind == sLit && s.guard.isTrue() {
				if off == i.ival {
					ns := append([]*Seg{}, l.segs...)
					ns[n] = litSeg(f(s.val))
					return &ListV{elem: l.elem, segs: ns, own: l.own}
				}
				off++
				continue
			}
			break
		}
		if len(l.segs) == 1 && l.segs[0].kind == sComp && l.segs[0].lo.isInt() && l.segs[0].hi.isInt() && l.segs[0].hi.ival <= 64 {
			// small array: expand
			var ns []*Seg
			for j := l.segs[0].lo.ival; j < l.segs[0].hi.ival; j++ {
				v := l.index(mkInt(j - l.segs[0].lo.ival))
				if j-l.segs[0].lo.ival == i.ival {
					v = f(v)
				}
				ns = append(ns, litSeg(v))
			}
			return &ListV{elem: l.elem, segs: ns, own: l.own}
		}
	}
	k := freshVar("e", SInt)
	old := l.index(k)
	eq := mkEq(k, i)
	fv := f(old)
	split0 := splitLists
	splitLists = false
	nv, ok := mergeV([]*Term{eq, mkNot(eq)}, []Value{fv, old})
	splitLists = split0
	if !ok {
		fail("element update with unmergeable values")
	}
	return &ListV{elem: l.elem, own: l.own, segs: []*Seg{compSeg(k, mkInt(0), l.length(), tTrue, []*Seg{litSeg(nv)}, false)}}
}

func concat(a, b *ListV) *ListV {
	e := a.elem
	if e == nil {
		e = b.elem
	}
	return &ListV{elem: e, segs: append(append([]*Seg{}, a.segs...), b.segs...)}
}

// slice l[lo:hi] with literal or boundary positions.
func (l *ListV) sub(lo, hi *Term) *ListV {
	ln := l.length()
	if lo == nil {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = ln
	}
	if lo.isInt() && lo.ival == 0 && hi == ln {
		return l
	}
	if lo.isInt() && lo.ival == 0 && hi.isInt() && hi.ival == 0 {
		return &ListV{elem: l.elem}
	}
	// all literal
	if lo.isInt() && hi.isInt() {
		all := true
		for _, s := range l.segs {
			all = all && s.kind == sLit && s.guard.isTrue()
		}
		if all && lo.ival >= 0 && hi.ival <= int64(len(l.segs)) && lo.ival <= hi.ival {
			return &ListV{elem: l.elem, segs: l.segs[lo.ival:hi.ival]}
		}
	}
	// drop the last literal / keep prefix: l[:len-1]
	if lo.isInt() && lo.ival == 0 && len(l.segs) > 0 {
		s := l.segs[len(l.segs)-1]
		if s.kind == sLit && s.guard.isTrue() && hi == mkAddC(ln, -1) {
			return &ListV{elem: l.elem, segs: l.segs[:len(l.segs)-1]}
		}
	}
	if len(l.segs) == 1 {
		s := l.segs[0]
		if s.kind == sBase && s.guard.isTrue() {
			c := *s
			c.lo = mkAdd(s.lo, lo)
			c.hi = mkAdd(s.lo, hi)
			return &ListV{elem: l.elem, segs: []*Seg{&c}}
		}
	}
	// general: elementwise view
	k := freshVar("e", SInt)
	return &ListV{elem: l.elem, segs: []*Seg{compSeg(k, lo, hi, tTrue, []*Seg{litSeg(l.index(k))}, false)}}
}

// ---------------------------------------------------------------- substitution

func substSegs(ss []*Seg, m map[*Term]*Term) []*Seg {
	var r []*Seg
	for _, s := range ss {
		c := *s
		if s.kind == sComp {
			// bound variables are globally unique, so no capture unless the
			// image mentions the binder itself
			m2 := m
			cap := false
			for k, v := range m {
				if k == s.k {
					m2 = map[*Term]*Term{}
					for a, b := range m {
						if a != s.k {
							m2[a] = b
						}
					}
				} else if occurs(s.k, v) {
					cap = true
				}
			}
			c.lo = subst(s.lo, m)
			c.hi = subst(s.hi, m)
			if cap {
				nk := freshVar(s.k.name, SInt)
				rn := map[*Term]*Term{s.k: nk}
				c.k = nk
				c.guard = subst(subst(s.guard, rn), m2)
				c.body = substSegs(substSegs(s.body, rn), m2)
			} else {
				c.guard = subst(s.guard, m2)
				c.body = substSegs(s.body, m2)
			}
		} else {
			c.guard = subst(s.guard, m)
			if s.kind == sLit {
				c.val = substV(s.val, m)
			} else {
				c.ref = subst(s.ref, m)
				c.lo = subst(s.lo, m)
				c.hi = subst(s.hi, m)
			}
		}
		if c.guard.isFalse() {
			continue
		}
		r = append(r, &c)
	}
	return r
}

func substV(v Value, m map[*Term]*Term) Value {
	if len(m) == 0 {
		return v
	}
	switch x := v.(type) {
	case *Term:
		return subst(x, m)
	case *StructV:
		n := &StructV{names: x.names, F: make([]Value, len(x.F))}
		for i, f := range x.F {
			n.F[i] = substV(f, m)
		}
		if x.idx != nil {
			n.idx = subst(x.idx, m)
		}
		return n
	case *ListV:
		n := &ListV{elem: x.elem, own: x.own, segs: substSegs(x.segs, m)}
		return n
	case *TupleV:
		n := &TupleV{}
		for _, f := range x.vs {
			n.vs = append(n.vs, substV(f, m))
		}
		return n
	case *IfaceV:
		c := *x
		if x.term != nil {
			c.term = subst(x.term, m)
		}
		if x.val != nil {
			c.val = substV(x.val, m)
		}
		return &c
	case *FuncV:
		c := *x
		if x.term != nil {
			c.term = subst(x.term, m)
		}
		c.binds = nil
		for _, b := range x.binds {
			c.binds = append(c.binds, substV(b, m))
		}
		return &c
	case *MapV:
		return &MapV{keys: x.keys, has: subst(x.has, m), get: substV(x.get, m), elem: x.elem}
	case *PtrV:
		c := &PtrV{obj: x.obj}
		for _, p := range x.path {
			if p.index != nil {
				p.index = subst(p.index, m)
			}
			c.path = append(c.path, p)
		}
		return c
	}
	return v
}

func visitSegs(ss []*Seg, f func(*Term)) {
	for _, s := range ss {
		f(s.guard)
		switch s.kind {
		case sLit:
			visitV(s.val, f)
		case sBase:
			f(s.ref)
			f(s.lo)
			f(s.hi)
		case sComp:
			f(s.lo)
			f(s.hi)
			visitSegs(s.body, f)
		}
	}
}
func visitV(v Value, f func(*Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case *StructV:
		for _, y := range x.F {
			visitV(y, f)
		}
		if x.idx != nil {
			f(x.idx)
		}
	case *ListV:
		visitSegs(x.segs, f)
	case *TupleV:
		for _, y := range x.vs {
			visitV(y, f)
		}
	case *IfaceV:
		if x.term != nil {
			f(x.term)
		}
		if x.val != nil {
			visitV(x.val, f)
		}
	case *FuncV:
		if x.term != nil {
			f(x.term)
		}
		for _, b := range x.binds {
			visitV(b, f)
		}
	case *MapV:
		f(x.has)
		visitV(x.get, f)
	case *PtrV:
		for _, p := range x.path {
			if p.index != nil {
				f(p.index)
			}
		}
	}
}

func mentions(v Value, vars map[*Term]bool) bool {
	hit := false
	visitV(v, func(t *Term) {
		if hit {
			return
		}
		for x := range freeVars(t) {
			if vars[x] {
				hit = true
				return
			}
		}
	})
	return hit
}
func mentionsSegs(ss []*Seg, vars map[*Term]bool) bool {
	return mentions(&ListV{segs: ss}, vars)
}

// ---------------------------------------------------------------- equality and merge

func sameSegs(a, b []*Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameSeg(a[i], b[i]) {
			return false
		}
	}
	return true
}
func sameSeg(a, b *Seg) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind || a.rev != b.rev {
		return false
	}
	switch a.kind {
	case sLit:
		return a.guard == b.guard && sameV(a.val, b.val)
	case sBase:
		return a.guard == b.guard && a.ref == b.ref && a.lo == b.lo && a.hi == b.hi
	}
	if a.lo != b.lo || a.hi != b.hi {
		return false
	}
	m := map[*Term]*Term{b.k: a.k}
	return subst(b.guard, m) == a.guard && sameSegs(a.body, substSegs(b.body, m))
}
func sameV(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) || x.idx != y.idx {
			return false
		}
		for i := range x.F {
			if !sameV(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ListV:
		y, ok := b.(*ListV)
		return ok && sameSegs(x.segs, y.segs)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.obj == y.obj
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.obj == y.obj
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.term != nil || y.term != nil {
			return x.term == y.term
		}
		return types.Identical(x.typ, y.typ) && sameV(x.val, y.val)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || x.term != y.term || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameV(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !sameV(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.has == y.has && sameV(x.get, y.get)
	case *UnknownV:
		_, ok := b.(*UnknownV)
		return ok
	}
	return false
}

// mergeV merges alternatives under exclusive, exhaustive conditions.
// splitLists keeps paths with different lists apart (loops with invariants).
var splitLists bool

// mergeElems: the alternatives are elements of one list.
var mergeElems bool

func mergeV(conds []*Term, vals []Value) (Value, bool) {
	same := true
	for _, v := range vals[1:] {
		same = same && sameV(vals[0], v)
	}
	if same {
		return vals[0], true
	}
	switch x := vals[0].(type) {
	case *Term:
		r, ok := asTerm(vals[len(vals)-1])
		if !ok {
			return nil, false
		}
		for i := len(vals) - 2; i >= 0; i-- {
			t, ok := asTerm(vals[i])
			if !ok || t.sort != r.sort {
				return nil, false
			}
			r = mkIte(conds[i], t, r)
		}
		return r, true
	case *StructV:
		n := &StructV{names: x.names}
		hasIdx := false
		for _, v := range vals {
			y, ok := v.(*StructV)
			if !ok || len(y.F) != len(x.F) {
				return nil, false
			}
			hasIdx = hasIdx || y.idx != nil
		}
		for i := range x.F {
			fs := make([]Value, len(vals))
			for j, v := range vals {
				fs[j] = v.(*StructV).F[i]
			}
			m, ok := mergeV(conds, fs)
			if !ok {
				return nil, false
			}
			n.F = append(n.F, m)
		}
		if hasIdx {
			r := mkInt(-1)
			for j := len(vals) - 1; j >= 0; j-- {
				id := vals[j].(*StructV).idx
				if id == nil {
					id = mkInt(-1)
				}
				if j == len(vals)-1 {
					r = id
				} else {
					r = mkIte(conds[j], id, r)
				}
			}
			n.idx = r
		}
		return n, true
	case *ListV:
		ls := make([]*ListV, len(vals))
		for i, v := range vals {
			l, ok := v.(*ListV)
			if !ok {
				if t, ok2 := v.(*Term); ok2 && t.sort == SStr {
					l = strPieces(t)
				} else {
					return nil, false
				}
			}
			ls[i] = l
		}
		// common prefix
		p := 0
	pre:
		for {
			for _, l := range ls {
				if p >= len(l.segs) || !sameSeg(l.segs[p], ls[0].segs[p]) {
					break pre
				}
			}
			p++
		}
		var os []int
		for _, l := range ls {
			os = append(os, l.own)
		}
		allOwn := joinOwn(os...)
		// arrays of equal span: merge elementwise
		if p == 0 && arrayLike(ls) {
			k := freshVar("e", SInt)
			es := make([]Value, len(ls))
			for i, l := range ls {
				es[i] = l.index(mkSub(k, ls[0].segs[0].lo))
			}
			if m, ok := mergeV(conds, es); ok {
				s := ls[0].segs[0]
				return &ListV{elem: ls[0].elem, own: allOwn, segs: []*Seg{compSeg(k, s.lo, s.hi, tTrue, []*Seg{litSeg(m)}, false)}}, true
			}
		}
		if mergeElems && p == 0 && ls[0].elem != nil {
			// alternatives that can be indexed are merged element by element
			ok := true
			ln := []Value{}
			for _, l := range ls {
				ok = ok && len(l.segs) == 1 && l.segs[0].guard.isTrue() && !l.segs[0].rev && (l.segs[0].kind == sBase ||
					l.segs[0].kind == sComp && len(l.segs[0].body) == 1 && l.segs[0].body[0].kind == sLit && l.segs[0].body[0].guard.isTrue())
				ln = append(ln, l.length())
			}
			if ok {
				k := freshVar("e", SInt)
				es := make([]Value, len(ls))
				for i, l := range ls {
					es[i] = l.index(k)
				}
				n, ok1 := mergeV(conds, ln)
				if m, ok2 := mergeV(conds, es); ok1 && ok2 {
					return &ListV{elem: ls[0].elem, own: allOwn, segs: []*Seg{compSeg(k, mkInt(0), n.(*Term), tTrue, []*Seg{litSeg(m)}, false)}}, true
				}
			}
		}
		if splitLists {
			for _, l := range ls {
				if len(l.segs) != p {
					return nil, false
				}
			}
		}
		r := &ListV{elem: ls[0].elem, own: allOwn, segs: append([]*Seg{}, ls[0].segs[:p]...)}
		for i, l := range ls {
			if r.elem == nil {
				r.elem = l.elem
			}
			r.segs = append(r.segs, guardSegs(conds[i], l.segs[p:])...)
		}
		return r, true
	case *MapV:
		n := &MapV{keys: x.keys, elem: x.elem}
		hs := make([]Value, len(vals))
		gs := make([]Value, len(vals))
		for i, v := range vals {
			y, ok := v.(*MapV)
			if !ok {
				return nil, false
			}
			hs[i] = y.has
			gs[i] = y.get
		}
		h, ok := mergeV(conds, hs)
		if !ok {
			return nil, false
		}
		g, ok := mergeV(conds, gs)
		if !ok {
			return nil, false
		}
		n.has = h.(*Term)
		n.get = g
		return n, true
	case *IfaceV:
		ts := make([]Value, len(vals))
		for i, v := range vals {
			y, ok := v.(*IfaceV)
			if !ok || y.term == nil {
				return nil, false
			}
			ts[i] = y.term
		}
		t, ok := mergeV(conds, ts)
		if !ok {
			return nil, false
		}
		return &IfaceV{term: t.(*Term), st: x.st}, true
	case *TupleV:
		n := &TupleV{}
		for i := range x.vs {
			fs := make([]Value, len(vals))
			for j, v := range vals {
				y, ok := v.(*TupleV)
				if !ok || len(y.vs) != len(x.vs) {
					return nil, false
				}
				fs[j] = y.vs[i]
			}
			m, ok := mergeV(conds, fs)
			if !ok {
				return nil, false
			}
			n.vs = append(n.vs, m)
		}
		return n, true
	case *UnknownV:
		return x, true
	}
	for _, v := range vals {
		if _, ok := v.(*UnknownV); ok {
			return v, true
		}
	}
	return nil, false
}

func arrayLike(ls []*ListV) bool {
	for _, l := range ls {
		if len(l.segs) != 1 {
			return false
		}
		s := l.segs[0]
		if !s.guard.isTrue() || s.kind == sLit {
			return false
		}
		if s.kind == sComp && (s.rev || len(s.body) != 1 || s.body[0].kind != sLit || !s.body[0].guard.isTrue()) {
			return false
		}
		if s.lo != ls[0].segs[0].lo || s.hi != ls[0].segs[0].hi {
			return false
		}
	}
	return true
}

func asTerm(v Value) (t *Term, ok bool) {
	switch x := v.(type) {
	case *Term:
		return x, true
	case *ListV:
		if x.elem == nil {
			return strTerm(x), true
		}
	}
	return nil, false
}

// eqV builds the formula a == b.
func eqV(a, b Value) *Term {
	if sameV(a, b) {
		return tTrue
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := asTerm(b); ok {
			return mkEq(x, y)
		}
		if y, ok := b.(*IfaceV); ok && y.term != nil {
			return mkEq(x, y.term)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			var cs []*Term
			for i := range x.F {
				cs = append(cs, eqV(x.F[i], y.F[i]))
			}
			return mkAnd(cs...)
		}
	case *ListV:
		if x.elem == nil {
			if y, ok := asTerm(b); ok {
				return mkEq(strTerm(x), y)
			}
		}
		if y, ok := b.(*ListV); ok {
			return eqList(x, y)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.term != nil && y.term != nil {
				return mkEq(x.term, y.term)
			}
			if x.term != nil && strings.HasPrefix(x.term.name, "nil:") && y.val != nil || y.term != nil && strings.HasPrefix(y.term.name, "nil:") && x.val != nil {
				return tFalse
			}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if x.term != nil && y.term != nil {
				return mkEq(x.term, y.term)
			}
			return tFalse
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			return mkForall(x.keys, mkAnd(mkIff(x.has, y.has), mkImp(x.has, eqV(x.get, y.get))))
		}
	}
	fail("equality of %T and %T", a, b)
	return nil
}

func eqList(x, y *ListV) *Term {
	if sameSegs(x.segs, y.segs) {
		return tTrue
	}
	// strip common prefix and suffix
	a, b := x.segs, y.segs
	for len(a) > 0 && len(b) > 0 && sameSeg(a[0], b[0]) {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && sameSeg(a[len(a)-1], b[len(b)-1]) {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) == len(b) {
		// pairwise when the shapes agree
		ok := true
		var cs []*Term
		for i := range a {
			if a[i].kind == sLit && b[i].kind == sLit && a[i].guard == b[i].guard {
				cs = append(cs, mkImp(a[i].guard, eqV(a[i].val, b[i].val)))
			} else if a[i].kind == sBase && b[i].kind == sBase && a[i].guard == b[i].guard && a[i].lo == b[i].lo && a[i].lo.isInt() && a[i].hi == lenRef(a[i].ref) && b[i].hi == lenRef(b[i].ref) && x.elem != nil && sortOf(x.elem) == SRef {
				cs = append(cs, mkImp(a[i].guard, mkEq(a[i].ref, b[i].ref)))
			} else if a[i].kind == sComp && b[i].kind == sComp && a[i].lo == b[i].lo && a[i].hi == b[i].hi && !a[i].rev && !b[i].rev && a[i].guard.isTrue() && b[i].guard.isTrue() && litBodies(a[i].body, b[i].body) {
				k := freshVar("e", SInt)
				sa := substSegs(a[i].body, map[*Term]*Term{a[i].k: k})
				sb := substSegs(b[i].body, map[*Term]*Term{b[i].k: k})
				var es []*Term
				for j := range sa {
					es = append(es, eqV(sa[j].val, sb[j].val))
				}
				cs = append(cs, mkForall([]*Term{k}, mkImp(mkAnd(mkLe(a[i].lo, k), mkLt(k, a[i].hi)), mkAnd(es...))))
			} else {
				ok = false
			}
		}
		if ok {
			return mkAnd(cs...)
		}
	}
	la, lb := x.length(), y.length()
	k := freshVar("e", SInt)
	return mkAnd(mkEq(la, lb), mkForall([]*Term{k}, mkImp(mkAnd(mkGe0(k), mkLt(k, la)), eqV(x.index(k), y.index(k)))))
}
func litBodies(a, b []*Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != sLit || b[i].kind != sLit || !a[i].guard.isTrue() || !b[i].guard.isTrue() {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- strings

func strLit(s string) *Term { return mkVar("lit:"+s, SStr) }

// strPieces views a string term as a list of pieces.
func strPieces(t *Term) *ListV {
	if t.name == "lit:" && t.op == OVar {
		return &ListV{}
	}
	if d := defOf(t); d != nil {
		return d
	}
	return &ListV{segs: []*Seg{litSeg(t)}}
}

func isStrLit(v Value) (string, bool) {
	t, ok := v.(*Term)
	if ok && t.op == OVar && strings.HasPrefix(t.name, "lit:") {
		return t.name[4:], true
	}
	return "", false
}

func normPieces(segs []*Seg) []*Seg {
	var r []*Seg
	for _, s := range segs {
		if s.kind == sComp {
			c := *s
			c.body = normPieces(s.body)
			if len(c.body) == 0 {
				continue
			}
			r = append(r, &c)
			continue
		}
		if s.kind == sLit && s.guard.isTrue() {
			if a, ok := isStrLit(s.val); ok {
				if a == "" {
					continue
				}
				if n := len(r); n > 0 && r[n-1].kind == sLit && r[n-1].guard.isTrue() {
					if b, ok := isStrLit(r[n-1].val); ok {
						r[n-1] = litSeg(strLit(b + a))
						continue
					}
				}
			}
			if t, ok := s.val.(*Term); ok {
				if d := defOf(t); d != nil {
					r = append(r, d.segs...)
					continue
				}
			}
		}
		r = append(r, s)
	}
	return r
}

func catStr(a, b Value) Value {
	la, lb := toPieces(a), toPieces(b)
	return &ListV{segs: normPieces(append(append([]*Seg{}, la.segs...), lb.segs...))}
}
func toPieces(v Value) *ListV {
	switch x := v.(type) {
	case *ListV:
		return x
	case *Term:
		return strPieces(x)
	}
	fail("string expected, got %T", v)
	return nil
}

// strTerm names a list of pieces by a function of its free variables whose
// name is determined by the structure, so equal structure gives equal terms.
func strTerm(l *ListV) *Term {
	segs := normPieces(l.segs)
	if len(segs) == 0 {
		return strLit("")
	}
	if len(segs) == 1 && segs[0].kind == sLit && segs[0].guard.isTrue() {
		return T(segs[0].val)
	}
	var args []*Term
	key := segKey(segs, map[*Term]string{}, new(int), &args)
	id, ok := catIDs[key]
	if !ok {
		id = len(catIDs)
		catIDs[key] = id
	}
	name := fmt.Sprintf("cat:%d", id)
	t := mkApp(name, SStr, args...)
	tp := template(t, args, &ListV{segs: segs})
	if defs[name] == nil {
		// a repetition without iterations contributes nothing
		d := &symDef{name: name}
		defs[name] = d
		for i, s := range tp.l.segs {
			if s.kind == sComp && len(args) > 0 {
				rest := append(append([]*Seg{}, tp.l.segs[:i]...), tp.l.segs[i+1:]...)
				g := mkApp(name, SStr, tp.params...)
				d.ax = append(d.ax, mkForall(tp.params, mkImp(mkLe(s.hi, s.lo), mkEq(g, strTerm(&ListV{segs: rest}))), []*Term{g}))
			}
		}
	}
	return t
}

var catIDs = map[string]int{}

// segKey renders the shape of segments; maximal subterms free of local binders
// become arguments.
func segKey(ss []*Seg, env map[*Term]string, n *int, args *[]*Term) string {
	var sb strings.Builder
	tk := func(t *Term) string { return argKey(t, env, args) }
	for _, s := range ss {
		switch s.kind {
		case sLit:
			if x, ok := isStrLit(s.val); ok && s.guard.isTrue() {
				fmt.Fprintf(&sb, "[lit %q]", x)
				continue
			}
			fmt.Fprintf(&sb, "[L %s %s]", tk(s.guard), valKey(s.val, env, n, args))
		case sBase:
			fmt.Fprintf(&sb, "[B %s %s %s %s]", tk(s.guard), tk(s.ref), tk(s.lo), tk(s.hi))
		case sComp:
			lo, hi := tk(s.lo), tk(s.hi)
			*n++
			env[s.k] = fmt.Sprintf("@%d", *n)
			fmt.Fprintf(&sb, "[C %v %s %s %s %s]", s.rev, lo, hi, tk(s.guard), segKey(s.body, env, n, args))
			delete(env, s.k)
		}
	}
	return sb.String()
}
func valKey(v Value, env map[*Term]string, n *int, args *[]*Term) string {
	switch y := v.(type) {
	case *ListV:
		if y.elem != nil {
			return "{" + y.elem.String() + segKey(y.segs, env, n, args) + "}"
		}
	case *StructV:
		s := "<"
		for _, f := range y.F {
			s += valKey(f, env, n, args) + ","
		}
		return s + ">"
	}
	return argKey(T(v), env, args)
}
func argKey(t *Term, env map[*Term]string, args *[]*Term) string {
	local := false
	for v := range freeVars(t) {
		if _, ok := env[v]; ok {
			local = true
		}
	}
	if t.isInt() || t.isTrue() || t.isFalse() {
		return t.String()
	}
	if !local {
		for i, a := range *args {
			if a == t {
				return fmt.Sprintf("$%d", i)
			}
		}
		*args = append(*args, t)
		return fmt.Sprintf("$%d", len(*args)-1)
	}
	if t.op == OVar {
		return env[t]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%d %s %d %v", t.op, t.name, t.ival, t.coefs)
	for i, b := range t.bound {
		env[b] = fmt.Sprintf("@q%d.%d", len(env), i)
		sb.WriteString(" " + env[b] + ":" + b.sort)
		defer delete(env, b)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(argKey(a, env, args))
	}
	sb.WriteByte(')')
	return sb.String()
}

// ---------------------------------------------------------------- list naming

// A named list (or string): its contents as a function of the parameters.
type tmpl struct {
	params []*Term
	l      *ListV
}

var tmpls = map[string]*tmpl{}
var defMemo = map[*Term]*ListV{}

// defOf returns the contents of a named list term, nil when it has none.
func defOf(t *Term) *ListV {
	if t.op != OApp && t.op != OVar {
		return nil
	}
	tp := tmpls[t.name]
	if tp == nil {
		return nil
	}
	if l, ok := defMemo[t]; ok {
		return l
	}
	m := map[*Term]*Term{}
	for i, p := range tp.params {
		m[p] = t.args[i]
	}
	l := substV(tp.l, m).(*ListV)
	defMemo[t] = l
	return l
}

func template(t *Term, args []*Term, l *ListV) *tmpl {
	if tp := tmpls[t.name]; tp != nil {
		return tp
	}
	tp := &tmpl{}
	m := map[*Term]*Term{}
	for i, a := range args {
		q := mkVar(fmt.Sprintf("%%p%d:%s", i, a.sort), a.sort)
		tp.params = append(tp.params, q)
		m[a] = q
	}
	memo := map[*Term]*Term{}
	tp.l = &ListV{elem: l.elem, own: l.own, segs: mapSegs(l.segs, func(y *Term) *Term { return replaceTop(y, m, memo) })}
	tmpls[t.name] = tp
	return tp
}

// replaceTop replaces maximal subterms.
func replaceTop(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = replaceTop(a, m, memo)
			ch = ch || args[i] != a
		}
		if ch {
			if t.op == OForall || t.op == OExists {
				r = mkQ(t.op, t.bound, args[0], t.pats...)
			} else {
				r = rebuild(t, args)
			}
		}
	}
	memo[t] = r
	return r
}

// listTerm names a list by a function of its free variables.
func listTerm(l *ListV) *Term {
	var args []*Term
	key := strings.ReplaceAll(fmt.Sprint(l.elem), "byte", "uint8") + segKey(l.segs, map[*Term]string{}, new(int), &args)
	id, ok := catIDs["L"+key]
	if !ok {
		id = len(catIDs)
		catIDs["L"+key] = id
	}
	name := fmt.Sprintf("lst:%d", id)
	if len(args) == 0 {
		args = []*Term{mkInt(0)}
	}
	t := mkApp(name, SRef, args...)
	if defs[name] == nil {
		d := &symDef{name: name}
		defs[name] = d
		tp := template(t, args, l)
		g := mkApp(name, SRef, tp.params...)
		n := tp.l.length()
		// a slice whose bounds are out of order has no length
		pos := mkGe0(n)
		d.ax = append(d.ax, mkForall(tp.params, mkImp(pos, mkEq(lenRef(g), n)), []*Term{g}))
		if indexable(l) {
			k := mkVar("%li", SInt)
			e := elemAt(g, l.elem, k)
			var pat []*Term
			visitV(e, func(y *Term) {
				if y.op == OApp && strings.HasPrefix(y.name, "at") && pat == nil {
					pat = []*Term{y}
				}
			})
			ax := mkImp(mkAnd(mkGe0(k), mkLt(k, n)), eqV(e, tp.l.index(k)))
			qs := append(append([]*Term{}, tp.params...), k)
			if pat != nil {
				d.ax = append(d.ax, mkForall(qs, ax, pat))
			} else {
				d.ax = append(d.ax, mkForall(qs, ax))
			}
		}
	}
	return t
}
func indexable(l *ListV) bool {
	for _, s := range l.segs {
		if !s.guard.isTrue() && s.kind != sBase || s.rev {
			return false
		}
		if s.kind == sComp && (len(s.body) != 1 || s.body[0].kind != sLit || !s.body[0].guard.isTrue()) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- flattening

// mapSegs applies f to every term of the segments.
func mapSegs(ss []*Seg, f func(*Term) *Term) []*Seg {
	var r []*Seg
	for _, s := range ss {
		c := *s
		c.guard = f(s.guard)
		switch s.kind {
		case sLit:
			c.val = mapV(s.val, f)
		case sComp:
			c.lo, c.hi = f(s.lo), f(s.hi)
			c.body = mapSegs(s.body, f)
		case sBase:
			c.ref, c.lo, c.hi = f(s.ref), f(s.lo), f(s.hi)
		}
		if !c.guard.isFalse() {
			r = append(r, &c)
		}
	}
	return r
}
func mapV(v Value, f func(*Term) *Term) Value {
	switch y := v.(type) {
	case *Term:
		return f(y)
	case *ListV:
		return &ListV{elem: y.elem, own: y.own, segs: mapSegs(y.segs, f)}
	case *StructV:
		n := &StructV{names: y.names, idx: y.idx}
		for _, z := range y.F {
			n.F = append(n.F, mapV(z, f))
		}
		if n.idx != nil {
			n.idx = f(n.idx)
		}
		return n
	case *TupleV:
		n := &TupleV{}
		for _, z := range y.vs {
			n.vs = append(n.vs, mapV(z, f))
		}
		return n
	}
	return v
}

// flattenIter rewrites an iteration by index over a list built earlier into an
// iteration over the segments of that list.
func flattenIter(ss []*Seg) []*Seg {
	var out []*Seg
	for _, s := range ss {
		if s.kind != sComp {
			out = append(out, s)
			continue
		}
		if r, ok := flattenComp(s); ok {
			out = append(out, flattenIter(r)...)
			continue
		}
		c := *s
		c.body = flattenIter(s.body)
		out = append(out, &c)
	}
	return out
}

func flattenComp(s *Seg) ([]*Seg, bool) {
	if s.rev || s.lo != mkInt(0) {
		return nil, false
	}
	body := s.body
	if !s.guard.isTrue() {
		body = guardSegs(s.guard, body)
	}
	var R *Term
	bad := false
	visitSegs(body, func(t *Term) {
		visit(t, map[*Term]bool{}, func(y *Term) {
			if y.op == OApp && (y.name == "atRef" || y.name == "atInt") && y.args[1] == s.k {
				if l := defOf(y.args[0]); l != nil {
					if R != nil && R != y.args[0] {
						bad = true
					}
					R = y.args[0]
				}
			}
		})
	})
	if R == nil || bad || occurs(s.k, R) {
		return nil, false
	}
	L := defOf(R)
	if s.hi != L.length() && s.hi != lenRef(R) {
		return nil, false
	}
	if !flatScalar(L.segs) {
		return nil, false
	}
	ok := true
	var over func(ls []*Seg) []*Seg
	over = func(ls []*Seg) []*Seg {
		var r []*Seg
		for _, l := range ls {
			switch l.kind {
			case sLit:
				n := mapSegs(body, elemSubst(R, s.k, l.val))
				visitSegs(n, func(t *Term) {
					if occurs(s.k, t) {
						ok = false
					}
				})
				r = append(r, guardSegs(l.guard, n)...)
			case sComp:
				r = append(r, compSeg(l.k, l.lo, l.hi, l.guard, over(l.body), l.rev))
			case sBase:
				k := freshVar("e", SInt)
				n := mapSegs(body, elemSubst(R, s.k, elemAt(l.ref, L.elem, k)))
				visitSegs(n, func(t *Term) {
					if occurs(s.k, t) {
						ok = false
					}
				})
				r = append(r, compSeg(k, l.lo, l.hi, l.guard, n, false))
			}
		}
		return r
	}
	r := over(L.segs)
	if !ok {
		return nil, false
	}
	// fresh binders: the same list may be iterated several times
	return renameBinders(r), true
}

func flatScalar(ss []*Seg) bool {
	for _, s := range ss {
		switch s.kind {
		case sLit:
			switch s.val.(type) {
			case *Term, *ListV:
			default:
				return false
			}
		case sComp:
			if !flatScalar(s.body) {
				return false
			}
		}
	}
	return true
}

func renameBinders(ss []*Seg) []*Seg {
	var r []*Seg
	for _, s := range ss {
		if s.kind != sComp {
			r = append(r, s)
			continue
		}
		k := freshVar(s.k.name, SInt)
		m := map[*Term]*Term{s.k: k}
		r = append(r, compSeg(k, s.lo, s.hi, subst(s.guard, m), renameBinders(substSegs(s.body, m)), s.rev))
	}
	return r
}

// elemSubst replaces the element k of list R by its value.
func elemSubst(R, k *Term, v Value) func(*Term) *Term {
	var ref *Term
	var inner *ListV
	switch y := v.(type) {
	case *Term:
		ref = y
	case *ListV:
		ref = listRef(y)
		inner = y
	}
	memo := map[*Term]*Term{}
	return func(t *Term) *Term {
		return mapTerm(t, func(y *Term) *Term {
			if y.op != OApp {
				return y
			}
			if (y.name == "atRef" || y.name == "atInt") && y.args[0] == R && y.args[1] == k {
				return ref
			}
			if inner != nil && y.name == "len" && y.args[0] == ref {
				return inner.length()
			}
			if inner != nil && y.name == "atInt" && y.args[0] == ref && y.args[1].isInt() {
				if z, ok := inner.index(y.args[1]).(*Term); ok {
					return z
				}
			}
			return y
		}, memo)
	}
}

// keySig names the sorts of the keys of a map.
func keySig(args []*Term) string {
	var r []string
	for _, a := range args[1:] {
		r = append(r, a.sort)
	}
	return strings.Join(r, ",")
}
