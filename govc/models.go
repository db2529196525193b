package main

// Models of what lies outside the functions under contract: the QContext
// interface (its implementation is verified separately against the same
// statements, see spec/context.spec), operand formulas, the standard library.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tDim = mkVar("dim", SInt)
var tNodes = mkVar("nodes", SRef)
var nilObj = mkVar("nil:Obj", SObj)
var nilErr = mkVar("nil:Err", SErr)

func idT(v, i, k *Term) *Term { return mkApp("id", SInt, v, i, k) }

func ifaceName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, iv *IfaceV, args []Value, pos token.Pos) []Outcome {
	m := c.Method.Name()
	in := ifaceName(c.Value.Type())
	x.noPanic(st, m+": receiver is not nil", mkNot(mkEq(iv.term, nilObj)), pos)
	switch in {
	case "QContext", "VarManager", "Scoper", "Model":
		if r, ok := x.ctxMethod(st, m, args, pos); ok {
			return one(st, r...)
		}
	}
	if ct := x.spec.contracts["iface:"+in+"."+m]; ct != nil {
		return x.callContractIface(st, ct, iv, args, c.Signature(), pos)
	}
	fail("no model for %s.%s", in, m)
	return nil
}

func (x *Exec) sigma(st *State) *Term { return st.ghost["sigma"].(*Term) }

func (x *Exec) scopeConst(st *State, c Value, ct types.Type) (Value, *Term) {
	return scopeConstAt(x.sigma(st), x.deep(st, c))
}
func scopeConstAt(sigma *Term, c Value) (Value, *Term) {
	s := c.(*StructV)
	id := T(s.F[0])
	val := s.F[1].(*ListV)
	ok := mkApp("scoped", SBool, sigma, id)
	r := mkApp("scopeVal", SRef, sigma, id, listRef(val))
	return &StructV{names: s.names, F: []Value{id, &ListV{elem: val.elem, segs: []*Seg{baseSeg(r)}}}}, ok
}

func (x *Exec) ctxMethod(st *State, m string, args []Value, pos token.Pos) ([]Value, bool) {
	topv := func() *Term { return st.ghost["topv"].(*Term) }
	switch m {
	case "Dim":
		return []Value{tDim}, true
	case "Nodes":
		return []Value{&ListV{elem: x.spec.nodeType, segs: []*Seg{baseSeg(tNodes)}}}, true
	case "ScopeVar":
		return []Value{mkApp("scopeVar", SStr, x.sigma(st), T(args[0]))}, true
	case "ScopeConst":
		v, ok := x.scopeConst(st, args[0], nil)
		return []Value{v, ok}, true
	case "CNFVar":
		t := idT(T(args[0]), T(args[1]), T(args[2]))
		st.ghost["topv"] = mkMaxTerm(topv(), []*Seg{litSeg(t)})
		return []Value{t}, true
	case "CNFVarExists":
		return []Value{x.freshT("exists", SBool)}, true
	case "TopV":
		return []Value{topv()}, true
	case "UpdateTopV":
		v := T(args[0])
		old := topv()
		b := mkLe(old, v)
		// numbers between the old and the new top value are never assigned
		q, i, k := freshVar("v", SStr), freshVar("i", SInt), freshVar("k", SInt)
		t := idT(q, i, k)
		st.assume(mkForall([]*Term{q, i, k}, mkNot(mkAnd(mkLt(old, t), mkLe(t, v))), []*Term{t}))
		st.ghost["topv"] = mkIte(b, v, old)
		return []Value{b}, true
	case "AddVar":
		st.ghost["sigma"] = mkApp("sigmaAddVar", SObj, x.sigma(st), T(args[0]))
		return []Value{}, true
	case "AddScope":
		st.ghost["sigma"] = mkApp("sigmaAddScope", SObj, x.sigma(st), T(args[0]))
		return []Value{}, true
	case "PopScope":
		s := x.sigma(st)
		st.ghost["sigma"] = mkApp("sigmaPop", SObj, s)
		e := mkApp("popErr", SErr, s)
		return []Value{e}, true
	case "SetScope":
		s := x.sigma(st)
		st.ghost["sigma"] = mkApp("sigmaSet", SObj, s, T(args[0]), listRef(x.list(st, args[1])))
		return []Value{mkApp("setErr", SErr, s)}, true
	case "Reset":
		st.ghost["sigma"] = mkVar("sigmaReset", SObj)
		st.ghost["topv"] = mkInt(0)
		if n, ok := st.ghost["epoch"].(*Term); ok {
			// numbers handed out before mean nothing from here on
			st.ghost["epoch"] = mkAddC(n, 1)
		}
		return []Value{}, true
	}
	return nil, false
}

// ---------------------------------------------------------------- library

func (x *Exec) external(st *State, fn *ssa.Function, args []Value, instr *ssa.Call, pos token.Pos) ([]Outcome, bool) {
	if inRepo(fn) {
		return nil, false
	}
	name := fn.String()
	if strings.HasPrefix(name, "(*bytes.Buffer).") {
		name = "(*strings.Builder)." + strings.TrimPrefix(name, "(*bytes.Buffer).")
	}
	str := func(i int) *ListV { return toPieces(args[i]) }
	switch name {
	case "errors.New":
		return one(st, mkApp("errNew:errors.New", SErr, T(args[0]))), true
	case "fmt.Errorf":
		f, ok := isStrLit(args[0])
		if !ok {
			f = "?"
		}
		l := x.list(st, args[1])
		var es []*Term
		if strings.Contains(f, "%w") {
			for _, s := range l.segs {
				if s.kind == sLit {
					if iv, ok := s.val.(*IfaceV); ok && iv.val != nil {
						if t, ok := iv.val.(*Term); ok && t.sort == SErr {
							es = append(es, t)
						}
					} else if t, ok := s.val.(*Term); ok && t.sort == SErr {
						es = append(es, t)
					}
				}
			}
			return one(st, mkApp("errWrap:"+f, SErr, es...)), true
		}
		return one(st, mkVar("errNew:"+f, SErr)), true
	case "errors.Is":
		return one(st, errIs(T(args[0]), T(args[1]))), true
	case "errors.Join":
		l := x.list(st, args[0])
		var conds []*Term
		var es []*Term
		for _, s := range l.segs {
			if s.kind != sLit {
				fail("errors.Join of an open list")
			}
			es = append(es, T(s.val))
			conds = append(conds, mkEq(T(s.val), nilErr))
		}
		return one(st, mkIte(mkAnd(conds...), nilErr, mkApp("errWrap:join", SErr, es...))), true
	case "fmt.Sprintf":
		f, ok := isStrLit(args[0])
		if !ok {
			fail("Sprintf with a computed format")
		}
		return one(st, x.sprintf(st, f, x.list(st, args[1]))), true
	case "strconv.Itoa":
		return one(st, mkApp("itoa", SStr, T(args[0]))), true
	case "(*strings.Builder).WriteString":
		x.store(st, args[0], catStr(x.load(st, args[0], pos), str1(args[1])))
		return one(st, mkApp("strlen", SInt, T(args[1])), nilErr), true
	case "(*strings.Builder).WriteRune":
		n := T(args[1])
		x.store(st, args[0], catStr(x.load(st, args[0], pos), runeTerm(n)))
		return one(st, mkInt(1), nilErr), true
	case "(*strings.Builder).WriteByte":
		n := T(args[1])
		x.store(st, args[0], catStr(x.load(st, args[0], pos), runeTerm(n)))
		return one(st, nilErr), true
	case "(*strings.Builder).String":
		return one(st, x.load(st, args[0], pos)), true
	case "(*strings.Builder).Len":
		n := mkApp("strlen", SInt, T(x.load(st, args[0], pos)))
		st.assume(mkGe0(n))
		return one(st, n), true
	case "(*strings.Builder).Reset":
		x.store(st, args[0], strLit(""))
		return one(st), true
	case "(*strings.Builder).Grow":
		return one(st), true
	case "(*strings.Builder).Bytes":
		return one(st, &ListV{elem: types.Typ[types.Byte], segs: []*Seg{baseSeg(mkApp("bytesOf", SRef, T(x.load(st, args[0], pos))))}}), true
	case "os.Create":
		x.note("os.Create, os.WriteFile, (*os.File).Write, WriteString: on success the file holds exactly what was written, in order; what Close does is not modelled")
		err := x.libErr(st)
		st.ghost["filePath"] = T(args[0])
		st.ghost["file"] = strLit("")
		st.ghost["ioFailed"] = mkOr(st.ghost["ioFailed"].(*Term), mkNot(mkEq(err, nilErr)))
		return one(st, mkVar("theFile", SObj), err), true
	case "(*os.File).Close":
		return one(st, x.libErr(st)), true
	case "(*os.File).WriteString", "io.WriteString", "fmt.Fprint":
		s := args[1]
		if name == "fmt.Fprint" {
			fail("fmt.Fprint")
		}
		return x.writeTo(st, args[0], s, pos), true
	case "(*os.File).Write":
		return x.writeTo(st, args[0], textOf(x.list(st, args[1])), pos), true
	case "fmt.Fprintf":
		f, ok := isStrLit(args[1])
		if !ok {
			fail("Fprintf with a computed format")
		}
		return x.writeTo(st, args[0], x.sprintf(st, f, x.list(st, args[2])), pos), true
	case "os/exec.Command":
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		c := zeroValue(t).(*StructV)
		for i, n := range c.names {
			switch n {
			case "Path":
				c.F[i] = args[0]
			case "Args":
				l := x.list(st, args[1])
				c.F[i] = &ListV{elem: l.elem, segs: append([]*Seg{litSeg(args[0])}, l.segs...)}
			}
		}
		return one(st, &PtrV{obj: x.newObj(st, c, t, "command")}), true
	case "(*os/exec.Cmd).Run":
		return one(st, x.run1(st, args[0], pos)), true
	case "errors.As":
		iv, ok := args[1].(*IfaceV)
		if !ok || iv.val == nil {
			fail("errors.As into an unknown target")
		}
		p, ok := iv.val.(*PtrV)
		if !ok {
			fail("errors.As into %T", iv.val)
		}
		et := iv.typ.Underlying().(*types.Pointer).Elem()
		e := T(args[0])
		is := mkApp("errIsType:"+et.String(), SBool, e)
		if !strings.HasPrefix(e.name, "err@") {
			// wrapped or unknown: of the type if it is, otherwise anything
			is = mkOr(is, mkApp("errAs:"+et.String(), SBool, e))
		}
		v := x.errAs(st, e, et, is)
		if v == nil {
			fail("errors.As into %s", et)
		}
		st.assume(mkImp(is, mkNot(mkEq(e, nilErr))))
		x.store(st, p, v)
		return one(st, is), true
	case "os.WriteFile":
		x.note("os.Create, os.WriteFile, (*os.File).Write, WriteString: on success the file holds exactly what was written, in order; what Close does is not modelled")
		err := x.libErr(st)
		st.ghost["filePath"] = T(args[0])
		st.ghost["file"] = x.convert(st, args[1], types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
		st.ghost["ioFailed"] = mkOr(st.ghost["ioFailed"].(*Term), mkNot(mkEq(err, nilErr)))
		return one(st, err), true
	}
	_ = str
	if ct := x.spec.contracts["ext:"+name]; ct != nil {
		return x.callContract(st, fn, ct, args, pos), true
	}
	return nil, false
}
func textOf(l *ListV) *Term {
	r := listRef(l)
	if r.op == OApp && r.name == "bytesOf" {
		return r.args[0]
	}
	return mkApp("stringOf", SStr, r)
}

// writeTo models a write to the open file or to a string builder.
func (x *Exec) writeTo(st *State, w, s Value, pos token.Pos) []Outcome {
	if iv, ok := w.(*IfaceV); ok && iv.term == nil {
		w = iv.val
	}
	if p, ok := w.(*PtrV); ok {
		x.store(st, p, catStr(x.load(st, p, pos), str1(s)))
		return one(st, mkApp("strlen", SInt, T(s)), nilErr)
	}
	if t, ok := w.(*Term); !ok || t != mkVar("theFile", SObj) {
		fail("write to an unknown destination")
	}
	err := x.libErr(st)
	st.ghost["file"] = catStr(st.ghost["file"], str1(s))
	st.ghost["ioFailed"] = mkOr(st.ghost["ioFailed"].(*Term), mkNot(mkEq(err, nilErr)))
	return one(st, x.freshT("n", SInt), err)
}

func str1(v Value) Value {
	if l, ok := v.(*ListV); ok {
		return l
	}
	return T(v)
}
func runeTerm(n *Term) *Term {
	if n.isInt() {
		return strLit(string(rune(n.ival)))
	}
	if n.op == OIte {
		return mkIte(n.args[0], runeTerm(n.args[1]), runeTerm(n.args[2]))
	}
	return mkApp("runeStr", SStr, n)
}

func errIs(e, target *Term) *Term {
	if e == target {
		return tTrue
	}
	if e.op == OIte {
		return mkIte(e.args[0], errIs(e.args[1], target), errIs(e.args[2], target))
	}
	if e == nilErr {
		return tFalse
	}
	if strings.HasPrefix(e.name, "errWrap:") {
		var cs []*Term
		for _, a := range e.args {
			cs = append(cs, errIs(a, target))
		}
		return mkOr(cs...)
	}
	if strings.HasPrefix(e.name, "errNew:") {
		return tFalse
	}
	is := mkApp("errIs", SBool, e, target)
	if strings.HasPrefix(target.name, "errNew:") {
		return mkAnd(mkNot(mkEq(e, nilErr)), is)
	}
	return is
}

func (x *Exec) sprintf(st *State, f string, args *ListV) Value {
	var out Value = strLit("")
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = catStr(out, strLit(f[i:]))
			break
		}
		out = catStr(out, strLit(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			fail("bad format")
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = catStr(out, strLit("%"))
			continue
		}
		if n >= len(args.segs) || args.segs[n].kind != sLit {
			fail("format arguments")
		}
		a := args.segs[n].val
		n++
		if iv, ok := a.(*IfaceV); ok && iv.val != nil {
			a = iv.val
		}
		switch verb {
		case 'd':
			out = catStr(out, mkApp("itoa", SStr, T(a)))
		case 's', 'v':
			if t, ok := a.(*Term); ok && t.sort == SInt && verb == 'v' {
				out = catStr(out, mkApp("itoa", SStr, t))
			} else if l, ok := a.(*ListV); ok && l.elem == nil {
				out = catStr(out, l)
			} else if t, ok := a.(*Term); ok && t.sort == SStr {
				out = catStr(out, t)
			} else {
				fail("format %%%c of %T", verb, a)
			}
		default:
			fail("format verb %%%c", verb)
		}
	}
	if n != len(args.segs) {
		fail("extra format arguments")
	}
	return out
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			r := mkApp("bytesOf", SRef, T(v))
			return &ListV{elem: sl.Elem(), own: ownFull, segs: []*Seg{baseSeg(r)}}
		}
	}
	if isString(to) {
		if l, ok := x.deep(st, v).(*ListV); ok && len(l.segs) == 1 && l.segs[0].kind == sBase {
			return textOf(l)
		}
	}
	fail("conversion from %s to %s", from, to)
	return nil
}

func (x *Exec) typeAssert(st *State, t *ssa.TypeAssert) Value {
	v := x.val(st, t.X)
	if e, ok := v.(*Term); ok && e.sort == SErr {
		if !t.CommaOk {
			fail("type assertion on an error")
		}
		is := mkApp("errIsType:"+t.AssertedType.String(), SBool, e)
		st.assume(mkImp(is, mkNot(mkEq(e, nilErr))))
		if v := x.errAs(st, e, t.AssertedType, is); v != nil {
			return &TupleV{[]Value{v, is}}
		}
		return &TupleV{[]Value{&IfaceV{term: mkApp("asObj", SObj, e), st: t.AssertedType}, is}}
	}
	fail("type assertion %s", t)
	return nil
}

// errAs is the pointer to a struct from outside the repository that e holds.
func (x *Exec) errAs(st *State, e *Term, t types.Type, is *Term) Value {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	id := x.newObj(st, symValue(n, "as:"+t.String(), func(p, s string) *Term { return mkApp(p, s, e) }), n, "error")
	o := *st.heap[id]
	o.mut = false
	o.guard = is
	st.heap[id] = &o
	return &PtrV{obj: id}
}

// libErr is an error of the standard library or none: never one of the repository's.
func (x *Exec) libErr(st *State) *Term {
	e := x.freshT("err", SErr)
	for _, p := range x.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && isErrorType(g.Type().(*types.Pointer).Elem()) {
				st.assume(mkNot(errIs(e, mkVar("errNew:global:"+g.String(), SErr))))
			}
		}
	}
	return e
}

// run models (*exec.Cmd).Run: a process that gets the arguments, reads the
// file named last and ends in any way.
func (x *Exec) run1(st *State, cmd Value, pos token.Pos) Value {
	x.note("(*exec.Cmd).Run: starts the process named with the arguments given, nil for exit status 0, *exec.ExitError for any other end of the process, another error if it could not be run; all it prints arrives in the buffers")
	c, ok := x.load(st, cmd, pos).(*StructV)
	if !ok {
		fail("Run of an unknown command")
	}
	set := func(name string, v Value) {
		if st.ghost[name] != nil {
			st.ghost[name] = v
		}
	}
	if n, ok := st.ghost["ran"].(*Term); ok {
		st.ghost["ran"] = mkAddC(n, 1)
	}
	set("ranName", T(c.field("Path")))
	args := x.list(st, c.field("Args"))
	text := x.freshT("unknownText", SStr)
	file := x.freshT("unknownFile", SStr)
	if args.length() == mkInt(2) {
		file = T(x.deep(st, args.index(mkInt(1))))
		text = mkIte(mkAnd(mkEq(file, T(st.ghost["filePath"])), mkNot(T(st.ghost["ioFailed"]))), strTermOf(st.ghost["file"]), text)
	}
	set("ranFile", file)
	set("ranText", text)
	e := x.libErr(st)
	is := mkApp("errIsType:*os/exec.ExitError", SBool, e)
	code := mkApp("u:exitCode", SInt, mkApp("as:*os/exec.ExitError.ProcessState", SObj, e))
	st.assume(mkImp(is, mkNot(mkEq(e, nilErr))))
	st.assume(mkImp(is, mkNot(mkEq(code, mkInt(0)))))
	set("status", mkIte(mkEq(e, nilErr), mkInt(0), mkIte(is, code, mkInt(-1))))
	out := x.freshT("printed", SStr)
	set("printed", out)
	var bufs []*PtrV
	for _, n := range []string{"Stderr", "Stdout"} {
		iv, ok := c.field(n).(*IfaceV)
		if !ok {
			fail("unknown output of a command")
		}
		if iv.term != nil {
			if iv.term != nilObj {
				fail("unknown output of a command")
			}
			continue
		}
		p, ok := iv.val.(*PtrV)
		if !ok {
			fail("output of a command to %T", iv.val)
		}
		t := out
		if n == "Stderr" {
			t = x.freshT("complaint", SStr)
		}
		for _, b := range bufs {
			if b.obj == p.obj {
				t = x.freshT("mixed", SStr)
			}
		}
		bufs = append(bufs, p)
		x.store(st, p, catStr(x.load(st, p, pos), t))
	}
	return e
}

func strTermOf(v Value) *Term {
	if l, ok := v.(*ListV); ok {
		return strTerm(l)
	}
	return T(v)
}

// map ranges: only bodies that delete the current key under a condition.
func (x *Exec) mapRange(fr *Frame, st *State, l *Loop, pred *ssa.BasicBlock) ([]Outcome, bool) {
	var next *ssa.Next
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return nil, false
	}
	it, ok := st.env[next.Iter].(*MapIterV)
	if !ok {
		fail("iteration over something other than a map")
	}
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			fail("map iteration with loop-carried variables")
		}
	}
	hif := headerIf(l.header)
	mv := st.heap[it.obj].val.(*MapV)
	// generic present key
	var keys []*Term
	for _, k := range mv.keys {
		keys = append(keys, freshVar("key", k.sort))
	}
	has, val := mv.at(keys)
	run := func(s *State, ok bool, stop stopSet) []Outcome {
		mt := next.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		kv := rebuildKey(mt.Key(), &keys)
		s.env[next] = &TupleV{[]Value{mkBool(ok), kv, val}}
		var rest []ssa.Instruction
		for i, in := range l.header.Instrs {
			if in == next {
				rest = l.header.Instrs[i+1:]
			}
		}
		return x.instrs(fr, s, l.header, rest, stop)
	}
	kk := append([]*Term{}, keys...)
	s := st.clone()
	s.path(has)
	n0, f0 := len(s.pc), len(s.facts)
	x.gen = append(x.gen, kk...)
	outs := run(s, true, l.bodyStops())
	x.gen = x.gen[:len(x.gen)-len(kk)]
	var sts []*State
	for _, o := range outs {
		if o.blk != l.header {
			fail("map iteration that stops early")
		}
		sts = append(sts, o.st)
	}
	m := x.mergeStates(sts, n0, f0)
	if m == nil || len(m.pc) != n0 {
		fail("map iteration: paths cannot be merged")
	}
	for id, o := range st.heap {
		if id != it.obj && !sameV(m.heap[id].val, o.val) {
			fail("map iteration changes more than the map")
		}
	}
	for g, v := range st.ghost {
		if !sameV(m.ghost[g], v) {
			fail("map iteration changes the context")
		}
	}
	nm := m.heap[it.obj].val.(*MapV)
	if !sameV(nm.get, mv.get) {
		fail("map iteration changes values")
	}
	// has' at another key must be has there; at the current key any condition
	sub := map[*Term]*Term{}
	for i, k := range mv.keys {
		sub[k] = kk[i]
	}
	atCur := subst(nm.has, sub)
	back := map[*Term]*Term{}
	for i, k := range mv.keys {
		back[kk[i]] = k
	}
	// frame: for other keys unchanged (checked by the solver)
	diff := mkNot(keyEq(mv, kk))
	x.oblige(m, "loop", "map iteration touches only the current key", mkForall(mv.keys, mkImp(diff, mkIff(nm.has, mv.has))), next.Pos())
	s2 := st.clone()
	o := *s2.heap[it.obj]
	o.val = &MapV{keys: mv.keys, elem: mv.elem, get: mv.get, has: mkAnd(mv.has, subst(atCur, back))}
	s2.heap[it.obj] = &o
	keys = append([]*Term{}, kk...)
	_ = hif
	return run(s2, false, l.bodyStops()), true
}

func rebuildKey(t types.Type, keys *[]*Term) Value {
	if st, ok := t.Underlying().(*types.Struct); ok {
		s := &StructV{}
		ks := append([]*Term{}, (*keys)...)
		for i := 0; i < st.NumFields(); i++ {
			s.names = append(s.names, st.Field(i).Name())
			s.F = append(s.F, rebuildKey(st.Field(i).Type(), &ks))
		}
		return s
	}
	k := (*keys)[0]
	*keys = (*keys)[1:]
	return k
}

var _ = fmt.Sprint
