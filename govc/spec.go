package main

// Contracts: a small text language whose expressions use Go syntax.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type macro struct {
	params []string
	body   ast.Expr
}

type proofStep struct {
	kind string // fix assume have show induct inductdown let case
	name string
	sort string
	lo   ast.Expr
	hi   ast.Expr
	e    ast.Expr
	text string
	args []ast.Expr
}

type clause struct {
	label string
	props []string
	e     ast.Expr
	steps []proofStep
	text  string
	free  bool // assumed at calls, proved; "free" only assumed (trusted)
}

type loopSpec struct {
	fn   string
	ord  int
	invs []*clause
	dec  []ast.Expr
	lets []*clause
	hint map[string]ast.Expr
	// resolve K: facts   at the end of an iteration the values of specification
	// functions at the keys in [K before, K after) are chosen
	resKey ast.Expr
	resKs  []resolution
	final  []resolution // choices made when the loop is left
}

type resolution struct {
	fn       string
	key, val ast.Expr
}

type Contract struct {
	name     string
	props    []string
	lets     []*clause
	requires []*clause
	ensures  []*clause
	loops    []*loopSpec
	modifies []string
	atCalls  bool
	paths    bool
	noexec   bool // interface or external contract: assumed
	trusted  string
	inline   map[string]bool
	lemma    bool
	params   []proofStep
	uses     []string
	covers   []*clause
	file     string
}

type Spec struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*macro
	ghosts    [][2]string // state the specification adds: name, sort
	ufuns     map[string]ufun
	axioms    []*clause
	axiomT    []*Term
	nodeType  types.Type
	constType types.Type
	clauseT   types.Type
	asgVar    int
	x         *Exec
}
type ufun struct {
	args []string
	res  string
}

func (s *Spec) loopInv(c *Contract, name string, ord int) *loopSpec {
	if c != nil {
		for _, l := range c.loops {
			if l.ord == ord && (l.fn == name || l.fn == "" && c.name == name) {
				return l
			}
		}
	}
	if c2 := s.contracts[name]; c2 != nil && c2 != c {
		for _, l := range c2.loops {
			if l.ord == ord && l.fn == "" {
				return l
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- parsing

type specLine struct {
	text string
	file string
	n    int
	ind  int
}

func loadSpec(dir string) (*Spec, error) {
	s := &Spec{contracts: map[string]*Contract{}, macros: map[string]*macro{}, ufuns: map[string]ufun{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := s.parseFile(f); err != nil {
			return nil, err
		}
	}
	// a lemma may use earlier lemmas only, and is proved for every property that uses it
	seen := map[string]bool{}
	for _, n := range s.order {
		c := s.contracts[n]
		for _, u := range c.uses {
			l := s.contracts[u]
			if l == nil || !l.lemma || c.lemma && !seen[u] {
				return nil, fmt.Errorf("%s: no earlier lemma %s", n, u)
			}
			have := map[string]bool{}
			for _, p := range l.props {
				have[p] = true
			}
			for _, p := range c.props {
				if !have[p] {
					return nil, fmt.Errorf("%s: lemma %s is not proved for %s", n, u, p)
				}
			}
		}
		seen[n] = true
	}
	return s, nil
}

func (s *Spec) parseFile(f string) error {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var lines []specLine
	depth := 0
	for n, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		cont := false
		if len(lines) > 0 {
			for _, o := range []string{"&&", "||", "+", "=", "-"} {
				cont = cont || strings.HasSuffix(lines[len(lines)-1].text, o)
			}
		}
		if depth > 0 || cont {
			lines[len(lines)-1].text += " " + t
		} else {
			lines = append(lines, specLine{t, filepath.Base(f), n + 1, ind})
		}
		depth += strings.Count(t, "(") + strings.Count(t, "[") - strings.Count(t, ")") - strings.Count(t, "]")
		if depth < 0 {
			return fmt.Errorf("%s:%d: unbalanced parentheses", f, n+1)
		}
	}
	var cur *Contract
	var cl *clause
	var loop *loopSpec
	for _, l := range lines {
		bad := func(e error) error { return fmt.Errorf("%s:%d: %v (%s)", l.file, l.n, e, l.text) }
		kw, rest, _ := strings.Cut(l.text, " ")
		rest = strings.TrimSpace(rest)
		props := []string(nil)
		if i := strings.IndexByte(kw, '['); i > 0 && strings.HasSuffix(kw, "]") {
			props = strings.Split(kw[i+1:len(kw)-1], ",")
			kw = kw[:i]
		}
		switch kw {
		case "fn":
			head, body, ok := strings.Cut(rest, "=")
			if !ok {
				return bad(fmt.Errorf("missing ="))
			}
			name, ps, _ := strings.Cut(strings.TrimSpace(head), "(")
			ps = strings.TrimSuffix(strings.TrimSpace(ps), ")")
			m := &macro{}
			for _, p := range strings.Split(ps, ",") {
				if p = strings.TrimSpace(p); p != "" {
					m.params = append(m.params, p)
				}
			}
			e, err := parser.ParseExpr(strings.TrimSpace(body))
			if err != nil {
				return bad(err)
			}
			m.body = e
			if s.macros[strings.TrimSpace(name)] != nil {
				return bad(fmt.Errorf("duplicate function"))
			}
			s.macros[strings.TrimSpace(name)] = m
			cl = nil
		case "ufun":
			name, ps, _ := strings.Cut(rest, "(")
			as, res, _ := strings.Cut(ps, ")")
			u := ufun{res: strings.TrimSpace(res)}
			for _, p := range strings.Split(as, ",") {
				if p = strings.TrimSpace(p); p != "" {
					u.args = append(u.args, p)
				}
			}
			s.ufuns[strings.TrimSpace(name)] = u
			cl = nil
		case "ghost":
			name, sort, _ := strings.Cut(rest, " ")
			s.ghosts = append(s.ghosts, [2]string{name, strings.TrimSpace(sort)})
			cl = nil
		case "axiom", "defn":
			label, body, _ := strings.Cut(rest, ":")
			e, err := parser.ParseExpr(strings.TrimSpace(body))
			if err != nil {
				return bad(err)
			}
			s.axioms = append(s.axioms, &clause{label: strings.TrimSpace(label), e: e, text: body, free: kw == "axiom"})
			cl = nil
		case "contract", "lemma":
			cur = &Contract{name: rest, file: l.file, inline: map[string]bool{}, lemma: kw == "lemma"}
			if s.contracts[rest] != nil {
				return bad(fmt.Errorf("duplicate contract"))
			}
			s.contracts[rest] = cur
			s.order = append(s.order, rest)
			cl, loop = nil, nil
		case "props":
			cur.props = strings.Fields(rest)
		case "paths":
			cur.paths = true // paths with different lists are kept apart
		case "modular":
			cur.atCalls = true
		case "assumed":
			cur.noexec = true
			cur.atCalls = true
			cur.trusted = rest
		case "owns":
			for _, f := range strings.Fields(rest) {
				cur.inline["own:"+f] = true
			}
		case "modifies":
			cur.modifies = append(cur.modifies, strings.Fields(rest)...)
		case "param":
			f := strings.Fields(rest)
			cur.params = append(cur.params, proofStep{name: f[0], sort: f[1]})
		case "loop":
			f := strings.Fields(strings.TrimSuffix(rest, ":"))
			loop = &loopSpec{hint: map[string]ast.Expr{}}
			if len(f) == 2 {
				loop.fn = f[0]
				f = f[1:]
			}
			loop.ord, err = strconv.Atoi(f[0])
			if err != nil {
				return bad(err)
			}
			cur.loops = append(cur.loops, loop)
			cl = nil
		case "invariant", "ensures", "requires", "let", "cover", "looplet":
			label, body := "", rest
			if kw == "let" || kw == "looplet" {
				label, body, _ = strings.Cut(rest, "=")
			} else if i := labelEnd(rest); i >= 0 {
				label, body = rest[:i], rest[i+1:]
			}
			c := &clause{label: strings.TrimSpace(label), props: props, text: strings.TrimSpace(body)}
			if c.text != "" {
				e, err := parser.ParseExpr(c.text)
				if err != nil {
					return bad(err)
				}
				c.e = e
			}
			cl = c
			switch kw {
			case "invariant":
				loop.invs = append(loop.invs, c)
			case "looplet":
				loop.lets = append(loop.lets, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
				loop = nil
			case "requires":
				cur.requires = append(cur.requires, c)
			case "let":
				cur.lets = append(cur.lets, c)
			case "cover":
				cur.covers = append(cur.covers, c)
			}
		case "free":
			// free ensures: assumed at calls without proof (trusted, listed)
			i := labelEnd(rest)
			if i < 0 {
				return bad(fmt.Errorf("label missing"))
			}
			e, err := parser.ParseExpr(strings.TrimSpace(rest[i+1:]))
			if err != nil {
				return bad(err)
			}
			cur.ensures = append(cur.ensures, &clause{label: strings.TrimSpace(rest[:i]), e: e, text: rest[i+1:], free: true})
		case "resolve", "final":
			// resolve K: f(k) = v; ...      final c = v; f(k) = v; ...
			head, body, _ := strings.Cut(rest, ":")
			if kw == "final" {
				body = rest
			} else if loop.resKey, err = parser.ParseExpr(strings.TrimSpace(head)); err != nil {
				return bad(err)
			}
			for _, p := range strings.Split(body, ";") {
				l, r, ok := strings.Cut(p, " = ")
				le, err := parser.ParseExpr(strings.TrimSpace(l))
				if err != nil || !ok {
					return bad(fmt.Errorf("resolve K: f(k) = v"))
				}
				re, err := parser.ParseExpr(strings.TrimSpace(r))
				if err != nil {
					return bad(err)
				}
				if c, ok := le.(*ast.Ident); ok && kw == "final" {
					loop.final = append(loop.final, resolution{c.Name, nil, re})
					continue
				}
				c, ok := le.(*ast.CallExpr)
				if !ok || len(c.Args) != 1 {
					return bad(fmt.Errorf("resolve K: f(k) = v"))
				}
				if kw == "final" {
					loop.final = append(loop.final, resolution{c.Fun.(*ast.Ident).Name, c.Args[0], re})
					continue
				}
				loop.resKs = append(loop.resKs, resolution{c.Fun.(*ast.Ident).Name, c.Args[0], re})
			}
		case "decreases":
			for _, p := range strings.Split(rest, ";") {
				e, err := parser.ParseExpr(strings.TrimSpace(p))
				if err != nil {
					return bad(err)
				}
				loop.dec = append(loop.dec, e)
			}
		case "fix", "assume", "have", "show", "induct", "inductdown", "set", "split", "strong", "define", "list", "take", "use":
			if cl == nil {
				return bad(fmt.Errorf("proof step outside a clause"))
			}
			st := proofStep{kind: kw, text: rest}
			body := rest
			switch kw {
			case "fix":
				// fix a Sort [on T]   callers instantiate the clause where T occurs
				head, on, _ := strings.Cut(rest, " on ")
				f := strings.Fields(head)
				st.name, st.sort = f[0], f[1]
				if on != "" {
					e, err := parser.ParseExpr(on)
					if err != nil {
						return bad(err)
					}
					st.lo = e
				}
				body = ""
			case "take":
				// take b Sort: P(b)   some b with P(b), which must exist
				// (take b Sort on T: P   where T is a term of the proof the witness occurs in)
				head, b, ok := strings.Cut(rest, ":")
				head, on, _ := strings.Cut(head, " on ")
				f := strings.Fields(head)
				if !ok || len(f) != 2 {
					return bad(fmt.Errorf("take b Sort: P"))
				}
				if on != "" {
					e, err := parser.ParseExpr(on)
					if err != nil {
						return bad(err)
					}
					st.lo = e
				}
				st.name, st.sort, body = f[0], f[1], b
			case "define":
				// define b n: P(n)   the assignment b with val(b,n) iff P(n)
				head, b, ok := strings.Cut(rest, ":")
				f := strings.Fields(head)
				if !ok || len(f) != 2 {
					return bad(fmt.Errorf("define b n: P"))
				}
				st.name, st.sort, body = f[0], f[1], b
			case "list":
				// list e; n; f: v(f)   the list e of length n with e[f] == v(f)
				head, b, ok := strings.Cut(rest, ":")
				f := splitTop(head)
				if !ok || len(f) != 3 {
					return bad(fmt.Errorf("list e; n; f: v"))
				}
				if st.lo, err = parser.ParseExpr(f[1]); err != nil {
					return bad(err)
				}
				st.name, st.sort, body = strings.TrimSpace(f[0]), strings.TrimSpace(f[2]), b
			case "use":
				// use L; a; b   the conclusions of lemma L for the arguments a, b
				f := splitTop(rest)
				st.name, body = strings.TrimSpace(f[0]), ""
				for _, a := range f[1:] {
					e, err := parser.ParseExpr(a)
					if err != nil {
						return bad(err)
					}
					st.args = append(st.args, e)
				}
				cur.uses = append(cur.uses, st.name)
			case "set":
				st.name, body, _ = strings.Cut(rest, "=")
				st.name = strings.TrimSpace(st.name)
			case "induct", "inductdown", "strong":
				head, b, ok := strings.Cut(rest, ":")
				if !ok {
					return bad(fmt.Errorf("induct i lo hi: P"))
				}
				f := splitTop(strings.TrimSpace(head))
				if len(f) != 3 {
					return bad(fmt.Errorf("induct i; lo; hi: P"))
				}
				st.name = f[0]
				if st.lo, err = parser.ParseExpr(f[1]); err != nil {
					return bad(err)
				}
				if st.hi, err = parser.ParseExpr(f[2]); err != nil {
					return bad(err)
				}
				body = b
			}
			if strings.TrimSpace(body) != "" {
				e, err := parser.ParseExpr(strings.TrimSpace(body))
				if err != nil {
					return bad(err)
				}
				st.e = e
			}
			cl.steps = append(cl.steps, st)
		default:
			return bad(fmt.Errorf("unknown keyword %q", kw))
		}
	}
	return nil
}

func splitTop(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ";") {
		r = append(r, strings.TrimSpace(p))
	}
	return r
}

func labelEnd(s string) int {
	for i, c := range s {
		if c == ':' {
			return i
		}
		if !(c == '_' || c == '-' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return -1
		}
	}
	return -1
}

// ---------------------------------------------------------------- evaluation

type evalCtx struct {
	x    *Exec
	st   *State
	old  *State
	env  map[string]Value
	cell func(name string) Value
	pre  *evalCtx // at loop entry
	hdr  *evalCtx // at the start of the iteration
}

func (e *evalCtx) with(kv ...any) *evalCtx {
	n := *e
	n.env = make(map[string]Value, len(e.env)+len(kv)/2)
	for k, v := range e.env {
		n.env[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		n.env[kv[i].(string)] = kv[i+1].(Value)
	}
	return &n
}

func (e *evalCtx) b(ex ast.Expr) *Term {
	v := e.eval(ex)
	t, ok := v.(*Term)
	if !ok || t.sort != SBool {
		fail("spec: boolean expected for %s, got %T", exprString(ex), v)
	}
	return t
}
func (e *evalCtx) t(ex ast.Expr) *Term { return T(e.x.deep(e.st, e.eval(ex))) }

func exprString(ex ast.Expr) string { return types.ExprString(ex) }

func (e *evalCtx) eval(ex ast.Expr) Value {
	switch n := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			v, _ := strconv.ParseInt(n.Value, 0, 64)
			return mkInt(v)
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return strLit(s)
		}
	case *ast.Ident:
		return e.ident(n.Name)
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		return e.field(v, n.Sel.Name)
	case *ast.StarExpr:
		return e.x.deep(e.st, e.x.load(e.st, e.eval(n.X), token.NoPos))
	case *ast.IndexExpr:
		v := e.eval(n.X)
		switch m := v.(type) {
		case *MapRef:
			v = e.st.heap[m.obj].val
		}
		if m, ok := v.(*MapV); ok {
			_, r := m.at([]*Term{e.t(n.Index)})
			return r
		}
		l := e.x.list(e.st, v)
		if len(l.segs) == 0 && os.Getenv("GOVC_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "empty list in spec: %s is %T\n", types.ExprString(n.X), v)
		}
		return e.x.deep(e.st, l.index(e.t(n.Index)))
	case *ast.SliceExpr:
		l := e.x.list(e.st, e.eval(n.X))
		var lo, hi *Term
		if n.Low != nil {
			lo = e.t(n.Low)
		}
		if n.High != nil {
			hi = e.t(n.High)
		}
		return l.sub(lo, hi)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return mkNot(e.b(n.X))
		case token.SUB:
			return mkNeg(e.t(n.X))
		}
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			return mkAnd(e.b(n.X), e.b(n.Y))
		case token.LOR:
			return mkOr(e.b(n.X), e.b(n.Y))
		}
		a, b := e.x.deep(e.st, e.eval(n.X)), e.x.deep(e.st, e.eval(n.Y))
		switch n.Op {
		case token.EQL, token.NEQ:
			t := e.equal(a, b)
			if n.Op == token.NEQ {
				t = mkNot(t)
			}
			return t
		case token.ADD:
			if la, ok := a.(*ListV); ok && la.elem == nil {
				return catStr(a, b)
			}
			if t, ok := a.(*Term); ok && t.sort == SStr {
				return catStr(a, b)
			}
			return mkAdd(T(a), T(b))
		case token.SUB:
			return mkSub(T(a), T(b))
		case token.MUL:
			return mkMul(T(a), T(b))
		case token.LSS:
			return mkLt(T(a), T(b))
		case token.LEQ:
			return mkLe(T(a), T(b))
		case token.GTR:
			return mkLt(T(b), T(a))
		case token.GEQ:
			return mkLe(T(b), T(a))
		}
	case *ast.CallExpr:
		return e.callExpr(n)
	}
	fail("spec: cannot evaluate %s", exprString(ex))
	return nil
}

type nilV struct{}

func (e *evalCtx) equal(a, b Value) *Term {
	if _, ok := a.(nilV); ok {
		a, b = b, a
	}
	if _, ok := b.(nilV); ok {
		switch x := a.(type) {
		case *Term:
			switch x.sort {
			case SErr:
				return mkEq(x, nilErr)
			case SObj:
				return mkEq(x, nilObj)
			case SFn:
				return mkEq(x, mkVar("nil:Fn", SFn))
			}
		case *IfaceV:
			if x.term != nil {
				return mkEq(x.term, nilObj)
			}
			return tFalse
		case *FuncV:
			if x.term != nil {
				return mkEq(x.term, mkVar("nil:Fn", SFn))
			}
			return tFalse
		case *ListV:
			return mkEq(x.length(), mkInt(0))
		case *PtrV:
			return tFalse
		}
		fail("spec: comparison of %T with nil", a)
	}
	return eqV(a, b)
}

func (e *evalCtx) ident(name string) Value {
	if v, ok := e.env[name]; ok {
		return v
	}
	if e.cell != nil {
		if v := e.cell(name); v != nil {
			return v
		}
	}
	switch name {
	case "true":
		return tTrue
	case "false":
		return tFalse
	case "nil":
		return nilV{}
	case "dim":
		return tDim
	case "topv":
		return e.st.ghost["topv"]
	case "sigma":
		return e.st.ghost["sigma"]
	case "nodes":
		return &ListV{elem: e.x.spec.nodeType, segs: []*Seg{baseSeg(tNodes)}}
	}
	if v, ok := e.st.ghost[name]; ok {
		return v
	}
	if m, ok := e.x.spec.macros[name]; ok && len(m.params) == 0 {
		return e.with().eval(m.body)
	}
	if u, ok := e.x.spec.ufuns[name]; ok && len(u.args) == 0 {
		return wrapSort(e.x, mkVar("u:"+name, baseSort(u.res)), u.res)
	}
	fail("spec: unknown name %s", name)
	return nil
}

func (e *evalCtx) field(v Value, name string) Value {
	switch x := v.(type) {
	case *PtrV:
		return e.field(e.x.load(e.st, x, token.NoPos), name)
	case *StructV:
		if f := x.field(name); f != nil {
			return f
		}
	case *TupleV:
		if n, err := strconv.Atoi(strings.TrimPrefix(name, "_")); err == nil && n < len(x.vs) {
			return x.vs[n]
		}
	}
	fail("spec: no field %s in %T", name, v)
	return nil
}

// sorts in specs: Int Bool Str Asg Obj Err Fn, Clauses (list of clauses),
// Clause (list of literals), Feats (list of feature values), Ints, Nodes
func baseSort(s string) string {
	switch s {
	case "Clauses", "Clause", "Feats", "Ints", "Nodes", "Ref", "Bytes", "Lines":
		return SRef
	}
	if strings.HasPrefix(s, "[]") {
		return SRef
	}
	return s
}
func wrapSort(x *Exec, t *Term, s string) Value {
	sl := func(et types.Type) Value { return &ListV{elem: et, segs: []*Seg{baseSeg(t)}} }
	switch s {
	case "Clauses":
		return sl(x.spec.clauseT)
	case "Clause", "Ints", "Feats":
		return sl(types.Typ[types.Int])
	case "Nodes":
		return sl(x.spec.nodeType)
	case "Bytes":
		return sl(types.Typ[types.Byte])
	case "Lines":
		return sl(types.NewSlice(types.Typ[types.Byte]))
	case "Fn":
		return &FuncV{term: t}
	default:
		if n, ok := strings.CutPrefix(s, "[]"); ok {
			et := typeNamed(x.prog, n)
			if et == nil {
				fail("spec: no type %s", n)
			}
			return sl(et)
		}
	case "Obj":
		return &IfaceV{term: t}
	}
	return t
}

// resolveMaps replaces references to maps by their content in st.
func resolveMaps(st *State, v Value) Value {
	switch m := v.(type) {
	case *MapRef:
		return st.heap[m.obj].val
	case *StructV:
		n := &StructV{names: m.names, idx: m.idx}
		for _, f := range m.F {
			n.F = append(n.F, resolveMaps(st, f))
		}
		return n
	case *PtrV:
		if o := st.heap[m.obj]; o != nil && len(m.path) == 0 {
			return resolveMaps(st, o.val)
		}
	}
	return v
}

func (e *evalCtx) bind(ex ast.Expr, sort string) (string, *Term) {
	id, ok := ex.(*ast.Ident)
	if !ok {
		fail("spec: bound variable expected")
	}
	return id.Name, freshVar(id.Name, sort)
}

func valT(a, n *Term) *Term { return mkApp("val", SBool, a, n) }

// litT: the literal l is true under a.
func litT(a, l *Term) *Term {
	c, cs, as := linParts(l)
	if c == 0 && len(as) == 1 && as[0].op == OApp && as[0].name == "id" {
		if cs[0] == 1 {
			return valT(a, l)
		}
		if cs[0] == -1 {
			return mkNot(valT(a, mkNeg(l)))
		}
	}
	if l.isInt() {
		if l.ival > 0 {
			return valT(a, l)
		}
		return mkNot(valT(a, mkNeg(l)))
	}
	if l.op == OIte {
		return mkIte(l.args[0], litT(a, l.args[1]), litT(a, l.args[2]))
	}
	return mkApp("lit", SBool, a, l)
}

func (x *Exec) clauseHolds(a *Term, c Value, st *State) *Term {
	l, ok := c.(*ListV)
	if !ok {
		fail("spec: clause expected, got %T", c)
	}
	if r := wholeRef(l); r != nil {
		return mkApp("HC", SBool, a, r)
	}
	return listAny(l.segs, l.elem, func(v Value) *Term { return litT(a, T(v)) })
}
func wholeRef(l *ListV) *Term {
	if len(l.segs) == 1 {
		return wholeSeg(l.segs[0])
	}
	return nil
}
func wholeSeg(s *Seg) *Term {
	if s.kind == sBase && s.lo == mkInt(0) && s.hi == lenRef(s.ref) {
		return s.ref
	}
	return nil
}
func (x *Exec) holds(a *Term, l *ListV, st *State) *Term {
	var cs []*Term
	for _, s := range l.segs {
		if r := wholeSeg(s); r != nil {
			cs = append(cs, mkImp(s.guard, mkApp("HOLDS", SBool, a, r)))
			continue
		}
		cs = append(cs, listAll([]*Seg{s}, l.elem, func(c Value) *Term { return x.clauseHolds(a, c, st) }))
	}
	return mkAnd(cs...)
}

// bnd: every literal is a variable number within 1..t (or its negation)
func (x *Exec) bnd(t *Term, l *ListV) *Term {
	ok := func(v Value) *Term {
		n := T(v)
		return mkAnd(mkNot(mkEq(n, mkInt(0))), mkLe(n, t), mkLe(mkNeg(n), t))
	}
	var cs []*Term
	for _, s := range l.segs {
		if r := wholeSeg(s); r != nil {
			cs = append(cs, mkImp(s.guard, mkApp("BND", SBool, t, r)))
			continue
		}
		cs = append(cs, listAll([]*Seg{s}, l.elem, func(c Value) *Term {
			cl := c.(*ListV)
			if r := wholeRef(cl); r != nil {
				return mkImp(cl.segs[0].guard, mkApp("BNDC", SBool, t, r))
			}
			return listAll(cl.segs, cl.elem, ok)
		}))
	}
	return mkAnd(cs...)
}

func (e *evalCtx) callExpr(n *ast.CallExpr) Value {
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		fail("spec: call of %s", exprString(n.Fun))
	}
	args := n.Args
	name := id.Name
	if m, ok := e.x.spec.macros[name]; ok {
		if len(m.params) != len(args) {
			fail("spec: %s takes %d arguments", name, len(m.params))
		}
		kv := []any{}
		for i, p := range m.params {
			kv = append(kv, p, e.eval(args[i]))
		}
		return e.with(kv...).eval(m.body)
	}
	if u, ok := e.x.spec.ufuns[name]; ok {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, e.x.flat(e.st, e.x.deep(e.st, e.eval(a)))...)
		}
		if len(ts) != len(u.args) {
			fail("spec: %s takes %d scalars, got %d", name, len(u.args), len(ts))
		}
		for i, t := range ts {
			if t.sort != baseSort(u.args[i]) {
				fail("spec: argument %d of %s has sort %s", i, name, t.sort)
			}
		}
		return wrapSort(e.x, mkApp("u:"+name, baseSort(u.res), ts...), u.res)
	}
	rng := func(n int) (string, *Term, *Term, *Term, *evalCtx) {
		nm, k := e.bind(args[0], SInt)
		lo, hi := e.t(args[1]), e.t(args[2])
		return nm, k, lo, hi, e.with(nm, k)
	}
	list := func(i int) *ListV { return e.x.list(e.st, e.x.deep(e.st, e.eval(args[i]))) }
	switch name {
	case "all", "ex":
		_, k, lo, hi, e2 := rng(0)
		in := mkAnd(mkLe(lo, k), mkLt(k, hi))
		if name == "all" {
			return mkForall([]*Term{k}, mkImp(in, e2.b(args[3])))
		}
		// ex(k, lo, hi, P, w...) names candidates for k: the same formula, with
		// the instances spelled out for the solver.
		ds := []*Term{mkExists([]*Term{k}, mkAnd(in, e2.b(args[3])))}
		nm := args[0].(*ast.Ident).Name
		for _, a := range args[4:] {
			w := e.t(a)
			ds = append(ds, mkAnd(mkLe(lo, w), mkLt(w, hi), e.with(nm, w).b(args[3])))
		}
		return mkOr(ds...)
	case "each":
		// each(x, list, P): every element satisfies P
		nm := args[0].(*ast.Ident).Name
		l := list(1)
		return listAll(l.segs, l.elem, func(v Value) *Term { return e.with(nm, v).b(args[2]) })
	case "sum":
		_, k, lo, hi, e2 := rng(0)
		return mkSum(k, lo, hi, e2.t(args[3]))
	case "allv", "exv":
		// allv(x, "Sort", y, "Sort", body)
		e2 := e.with()
		var bs []*Term
		for i := 0; i+1 < len(args); i += 2 {
			s, _ := strconv.Unquote(args[i+1].(*ast.BasicLit).Value)
			nm, k := e.bind(args[i], baseSort(s))
			e2.env[nm] = wrapSort(e.x, k, s)
			bs = append(bs, k)
		}
		b := e2.b(args[len(args)-1])
		if name == "allv" {
			return mkForall(bs, b)
		}
		return mkExists(bs, b)
	case "allp":
		// allp(x,"Sort",..., body, pattern): with a trigger
		e2 := e.with()
		var bs []*Term
		for i := 0; i+2 < len(args); i += 2 {
			s, _ := strconv.Unquote(args[i+1].(*ast.BasicLit).Value)
			nm, k := e.bind(args[i], baseSort(s))
			e2.env[nm] = wrapSort(e.x, k, s)
			bs = append(bs, k)
		}
		b := e2.b(args[len(args)-2])
		var pat []*Term
		if c, ok := args[len(args)-1].(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "pats" {
				for _, a := range c.Args {
					pat = append(pat, e2.t(a))
				}
			}
		}
		if pat == nil {
			pat = []*Term{e2.t(args[len(args)-1])}
		}
		var used []*Term
		for _, b := range bs {
			for _, p := range pat {
				if occurs(b, p) {
					used = append(used, b)
					break
				}
			}
		}
		return mkForall(bs, b, pat)
	case "has_field":
		// has_field(x, "f"): the struct x has a field f (it may be gone from the code)
		f, _ := strconv.Unquote(args[1].(*ast.BasicLit).Value)
		if x, ok := e.eval(args[0]).(*StructV); ok && x.field(f) == nil {
			return tFalse
		}
		return tTrue
	case "imp":
		a := e.b(args[0])
		if a.isFalse() {
			return tTrue
		}
		return mkImp(a, e.b(args[1]))
	case "iff":
		return mkIff(e.b(args[0]), e.b(args[1]))
	case "ite":
		c := e.b(args[0])
		if c.isTrue() {
			return e.eval(args[1])
		}
		if c.isFalse() {
			return e.eval(args[2])
		}
		v, ok := mergeV([]*Term{c, mkNot(c)}, []Value{e.x.deep(e.st, e.eval(args[1])), e.x.deep(e.st, e.eval(args[2]))})
		if !ok {
			fail("spec: ite of unmergeable values")
		}
		return v
	case "len":
		v := e.eval(args[0])
		if t, ok := v.(*Term); ok && t.sort == SStr {
			return mkApp("strlen", SInt, t)
		}
		return e.x.list(e.st, v).length()
	case "val":
		return valT(e.t(args[0]), e.t(args[1]))
	case "lit":
		return litT(e.t(args[0]), e.t(args[1]))
	case "id":
		return idT(e.t(args[0]), e.t(args[1]), e.t(args[2]))
	case "holds":
		return e.x.holds(e.t(args[0]), list(1), e.st)
	case "holdsc":
		return e.x.clauseHolds(e.t(args[0]), list(1), e.st)
	case "bnd":
		return e.x.bnd(e.t(args[0]), list(1))
	case "bndc":
		t := e.t(args[0])
		l := list(1)
		if r := wholeRef(l); r != nil {
			return mkApp("BNDC", SBool, t, r)
		}
		return listAll(l.segs, l.elem, func(v Value) *Term {
			n := T(v)
			return mkAnd(mkNot(mkEq(n, mkInt(0))), mkLe(n, t), mkLe(mkNeg(n), t))
		})
	case "abs":
		t := e.t(args[0])
		return mkIte(mkGe0(t), t, mkNeg(t))
	case "max":
		return mkMax(e.t(args[0]), e.t(args[1]))
	case "svar":
		return mkApp("scopeVar", SStr, e.oldSigma(), e.t(args[0]))
	case "sconst":
		v, _ := scopeConstAt(e.oldSigma(), e.x.deep(e.st, e.eval(args[0])))
		return v
	case "svarAt":
		return mkApp("scopeVar", SStr, e.t(args[0]), e.t(args[1]))
	case "sconstAt":
		v, _ := scopeConstAt(e.t(args[0]), e.x.deep(e.st, e.eval(args[1])))
		return v
	case "call":
		// call(f, args...) the result of a user supplied string function
		f := T(e.eval(args[0]))
		ts := []*Term{f}
		nm := "call"
		for _, a := range args[1:] {
			v := e.x.deep(e.st, e.eval(a))
			fs := e.x.flat(e.st, v)
			ts = append(ts, fs...)
		}
		for _, t := range ts[1:] {
			nm += ":" + t.sort
		}
		return mkApp(nm+"/"+SStr, SStr, ts...)
	case "itoa":
		return mkApp("itoa", SStr, e.t(args[0]))
	case "catfor":
		_, k, lo, hi, e2 := rng(0)
		return &ListV{segs: normPieces([]*Seg{compSeg(k, lo, hi, tTrue, toPieces(e2.eval(args[3])).segs, false)})}
	case "old":
		o := *e
		o.st = e.old
		return resolveMaps(e.old, e.x.deep(e.old, o.eval(args[0])))
	case "pre", "hdr":
		// pre(e) at loop entry, hdr(e) at the start of the iteration
		o := e.pre
		if id.Name == "hdr" {
			o = e.hdr
		}
		if o == nil {
			fail("%s outside a loop", id.Name)
		}
		n := o.with()
		for k, v := range e.env {
			if _, ok := n.env[k]; !ok {
				n.env[k] = v
			}
		}
		return n.eval(args[0])
	case "res":
		// res("Name", k) the first result of the k-th call decided by the contract Name
		nm, _ := strconv.Unquote(args[0].(*ast.BasicLit).Value)
		want, _ := strconv.Atoi(args[1].(*ast.BasicLit).Value)
		seen := map[string]bool{}
		for _, c := range e.x.calls {
			if !strings.HasSuffix(c.name, nm) || len(c.rets) == 0 {
				continue
			}
			k := ""
			for _, t := range e.x.flat(e.st, c.rets[0]) {
				k += fmt.Sprint(t.id, " ")
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			if len(seen) == want+1 {
				return c.rets[0]
			}
		}
		fail("no call %d of %s", want, nm)
	case "as":
		// the value of dynamic type args[1] an interface or pointer holds
		s, _ := strconv.Unquote(args[1].(*ast.BasicLit).Value)
		switch v := e.eval(args[0]).(type) {
		case *IfaceV:
			if v.val != nil && strings.TrimPrefix(types.TypeString(v.typ, nil), "*") == modPath+"/"+s {
				return v.val
			}
			// something else: any value of the type
			t := typeNamed(e.x.prog, s)
			if t == nil {
				fail("spec: no type %s", s)
			}
			return symValue(t, "notA:"+s, func(p, s string) *Term { return mkVar(p, s) })
		default:
			return v
		}
	case "has":
		v := e.eval(args[0])
		if m, ok := v.(*MapRef); ok {
			v = e.st.heap[m.obj].val
		}
		var ks []*Term
		for _, a := range args[1:] {
			ks = append(ks, flattenKey(e.eval(a))...)
		}
		h, _ := v.(*MapV).at(ks)
		return h
	case "get":
		v := e.eval(args[0])
		if m, ok := v.(*MapRef); ok {
			v = e.st.heap[m.obj].val
		}
		var ks []*Term
		for _, a := range args[1:] {
			ks = append(ks, flattenKey(e.eval(a))...)
		}
		_, r := v.(*MapV).at(ks)
		return r
	case "errIs":
		return errIs(e.t(args[0]), e.t(args[1]))
	case "errIsA":
		s, _ := strconv.Unquote(args[1].(*ast.BasicLit).Value)
		return errIs(e.t(args[0]), mkVar("errNew:global:"+modPath+"/"+s, SErr))
	case "sameList":
		// structural identity of two lists
		a, b := list(0), list(1)
		return eqList(a, b)
	case "text":
		return textOf(list(0))
	case "ref":
		return listRef(list(0))
	case "struct":
		v := e.x.deep(e.st, e.eval(args[0]))
		return v
	case "app":
		// app("name","Sort", args...) raw symbol
		nm, _ := strconv.Unquote(args[0].(*ast.BasicLit).Value)
		so, _ := strconv.Unquote(args[1].(*ast.BasicLit).Value)
		var ts []*Term
		for _, a := range args[2:] {
			ts = append(ts, e.x.flat(e.st, e.x.deep(e.st, e.eval(a)))...)
		}
		return wrapSort(e.x, mkApp(nm, baseSort(so), ts...), so)
	case "fieldat":
		fail("spec: fieldat")
	}
	fail("spec: unknown function %s", name)
	return nil
}

func (e *evalCtx) oldSigma() *Term {
	return e.old.ghost["sigma"].(*Term)
}

// ---------------------------------------------------------------- goals

// splitGoal breaks a goal into parts: hypotheses and a smaller goal.
type part struct {
	hyps []*Term
	goal *Term
}

func splitGoal(g *Term, deep bool) []part {
	switch g.op {
	case OTrue:
		return nil
	case OAnd:
		var r []part
		for _, a := range g.args {
			r = append(r, splitGoal(a, deep)...)
		}
		return r
	case OForall:
		m := map[*Term]*Term{}
		for _, b := range g.bound {
			m[b] = freshVar("sk_"+b.name, b.sort)
		}
		return splitGoal(subst(g.args[0], m), deep)
	case OEq:
		if g.args[0].sort == SBool && deep {
			a, b := g.args[0], g.args[1]
			var r []part
			for _, p := range splitGoal(b, false) {
				r = append(r, part{append([]*Term{a}, p.hyps...), p.goal})
			}
			for _, p := range splitGoal(a, false) {
				r = append(r, part{append([]*Term{b}, p.hyps...), p.goal})
			}
			return r
		}
		if g.args[0].sort == SStr {
			if r := catEqual(g.args[0], g.args[1]); r != nil {
				return splitGoal(r, deep)
			}
		}
	case OGe0:
		if r := aboveMax(g.args[0]); r != nil {
			return splitGoal(r, deep)
		}
	case OOr:
		// choose one disjunct as the goal, assume the negation of the others
		var goal *Term
		for _, a := range g.args {
			if a.op == OForall || a.op == OAnd || a.op == OEq && a.args[0].sort == SBool {
				if goal == nil {
					goal = a
				}
			}
		}
		if goal != nil {
			var hs []*Term
			for _, a := range g.args {
				if a != goal {
					hs = append(hs, mkNot(a))
				}
			}
			var r []part
			for _, p := range splitGoal(goal, deep) {
				r = append(r, part{append(append([]*Term{}, hs...), p.hyps...), p.goal})
			}
			return r
		}
	case OIte:
		var r []part
		for _, p := range splitGoal(g.args[1], deep) {
			r = append(r, part{append([]*Term{g.args[0]}, p.hyps...), p.goal})
		}
		for _, p := range splitGoal(g.args[2], deep) {
			r = append(r, part{append([]*Term{mkNot(g.args[0])}, p.hyps...), p.goal})
		}
		return r
	}
	return []part{{nil, g}}
}

// aboveMax spells out t - max(...) >= 0: t is at least each of the elements.
func aboveMax(l *Term) *Term {
	c, cs, as := linParts(l)
	var mt *Term
	var mi *maxTerm
	for i, a := range as {
		if m, ok := maxInfo[a]; ok && cs[i] == -1 {
			mt, mi = a, m
		}
	}
	if mt == nil {
		return nil
	}
	rest := mkAdd(l, mt)
	have := map[string]bool{}
	key := func(s *Seg) string {
		var args []*Term
		k := segKey([]*Seg{s}, map[*Term]string{}, new(int), &args)
		for _, a := range args {
			k += "," + a.String()
		}
		return k
	}
	if _, rcs, ras := linParts(rest); c == 0 && len(ras) == 1 && rcs[0] == 1 {
		if m2, ok := maxInfo[ras[0]]; ok {
			for _, s := range m2.segs {
				have[key(s)] = true
			}
		}
	}
	r := mkLe(mi.base, rest)
	for _, s := range mi.segs {
		if k := key(s); !have[k] {
			have[k] = true
			r = mkAnd(r, listAll([]*Seg{s}, nil, func(v Value) *Term { return mkLe(T(v), rest) }))
		}
	}
	return r
}

// catEqual is a condition under which two strings built piece by piece are
// equal: the same number of pieces, equal one by one.
func catEqual(a, b *Term) *Term {
	la, lb := defOf(a), defOf(b)
	if la == nil || lb == nil || len(la.segs) != len(lb.segs) {
		return nil
	}
	piece := func(ss []*Seg) (val, excl *Term) {
		val, excl = strLit(""), tTrue
		for i := len(ss) - 1; i >= 0; i-- {
			t, ok := ss[i].val.(*Term)
			if ss[i].kind != sLit || !ok {
				return nil, nil
			}
			for _, o := range ss[i+1:] {
				excl = mkAnd(excl, mkNot(mkAnd(ss[i].guard, o.guard)))
			}
			val = mkIte(ss[i].guard, t, val)
		}
		return
	}
	r := tTrue
	for i, x := range la.segs {
		y := lb.segs[i]
		if x.kind != y.kind || x.rev != y.rev {
			return nil
		}
		if x.kind == sComp {
			if !x.guard.isTrue() || !y.guard.isTrue() {
				return nil
			}
			k := freshVar("k", SInt)
			vx, ex := piece(substSegs(x.body, map[*Term]*Term{x.k: k}))
			vy, ey := piece(substSegs(y.body, map[*Term]*Term{y.k: k}))
			if vx == nil || vy == nil {
				return nil
			}
			r = mkAnd(r, mkEq(x.lo, y.lo), mkEq(x.hi, y.hi), mkForall([]*Term{k},
				mkImp(mkAnd(mkLe(x.lo, k), mkLt(k, x.hi)), mkAnd(ex, ey, mkEq(vx, vy)))))
			continue
		}
		vx, _ := piece([]*Seg{x})
		vy, _ := piece([]*Seg{y})
		if vx == nil || vy == nil {
			return nil
		}
		r = mkAnd(r, mkEq(vx, vy))
	}
	return r
}

// prove adds the obligations of one clause in the given state.
func (x *Exec) prove(st *State, e *evalCtx, c *clause, kind, name string, pos token.Pos, props []string) {
	if len(c.steps) == 0 {
		x.obligeSplit(st.hyps(), kind, name, e.b(c.e), pos, props, c.text)
		return
	}
	e = e.with()
	if e.hdr == nil {
		e.hdr = e // loop entry: there is no iteration yet
	}
	x.proveSteps(st.hyps(), e, c, kind, name, pos, props)
}

func (x *Exec) proveSteps(hyps []*Term, e *evalCtx, c *clause, kind, name string, pos token.Pos, props []string) {
	hyps = append([]*Term{}, hyps...)
	add := func(t *Term) { hyps = append(hyps, conjuncts(t)...) }
	// proof steps only accumulate hypotheses; a final show is the claim
	for i, s := range c.steps {
		nm := fmt.Sprintf("%s.%d", name, i)
		switch s.kind {
		case "fix":
			e.env[s.name] = wrapSort(x, freshVar(s.name, baseSort(s.sort)), s.sort)
		case "set":
			e.env[s.name] = e.x.deep(e.st, e.eval(s.e))
		case "define":
			b := freshVar(s.name, SAsg)
			n := freshVar(s.sort, SInt)
			add(mkForall([]*Term{n}, mkIff(valT(b, n), e.with(s.sort, n).b(s.e)), []*Term{valT(b, n)}))
			e.env[s.name] = b
		case "list":
			n := e.t(s.lo)
			x.obligeSplit(hyps, kind, nm, mkLe(mkInt(0), n), pos, props, s.text)
			l := wrapSort(x, freshVar(s.name, baseSort("Feats")), "Feats")
			lv := x.list(e.st, l)
			f := freshVar(s.sort, SInt)
			at := T(lv.index(f))
			add(mkEq(lv.length(), n))
			add(mkForall([]*Term{f}, mkImp(mkAnd(mkLe(mkInt(0), f), mkLt(f, n)), mkEq(at, e.with(s.sort, f).t(s.e))), []*Term{at}))
			e.env[s.name] = l
		case "take":
			v := freshVar(s.name, baseSort(s.sort))
			e2 := e.with(s.name, wrapSort(x, v, s.sort))
			var pats [][]*Term
			if s.lo != nil {
				pats = append(pats, conjuncts(T(e2.eval(s.lo))))
			}
			x.obligeSplit(hyps, kind, nm, mkQ(OExists, []*Term{v}, e2.b(s.e), pats...), pos, props, s.text)
			w := freshVar(s.name, baseSort(s.sort))
			e.env[s.name] = wrapSort(x, w, s.sort)
			add(e.b(s.e))
		case "use":
			l := x.spec.contracts[s.name]
			if l == nil || !l.lemma {
				fail("no lemma %s", s.name)
			}
			if len(l.params) != len(s.args) {
				fail("arguments of lemma %s", s.name)
			}
			le := e.with()
			le.env = map[string]Value{}
			for k, p := range l.params {
				le.env[p.name] = e.x.deep(e.st, e.eval(s.args[k]))
			}
			le.lets(l.lets)
			for _, r := range l.requires {
				x.obligeSplit(hyps, kind, nm, le.b(r.e), pos, props, s.name+" "+r.text)
			}
			for _, c := range l.ensures {
				if c.e != nil {
					add(le.b(c.e))
				} else {
					add(x.stepsFormula(le.with(), c.steps))
				}
			}
		case "assume":
			t := e.b(s.e)
			if t.isFalse() {
				return
			}
			add(t)
		case "have", "show":
			t := e.b(s.e)
			x.obligeSplit(hyps, kind, nm, t, pos, props, s.text)
			add(t)
		case "split":
			// prove under each of the two cases
			t := e.b(s.e)
			rest := *c
			rest.steps = c.steps[i+1:]
			for k, h := range []*Term{t, mkNot(t)} {
				x.proveSteps(append(append([]*Term{}, hyps...), conjuncts(h)...), e.with(), &rest, kind, fmt.Sprintf("%s.case%d", nm, k), pos, props)
			}
			return
		case "induct", "inductdown", "strong":
			lo, hi := e.t(s.lo), e.t(s.hi)
			P := func(t *Term) *Term { return e.with(s.name, t).b(s.e) }
			k := freshVar(s.name, SInt)
			if s.kind == "strong" {
				// P at k follows from P below k, for lo <= k < hi
				j := freshVar(s.name, SInt)
				h := append(append([]*Term{}, hyps...), mkLe(lo, k), mkLt(k, hi), mkForall([]*Term{j}, mkImp(mkAnd(mkLe(lo, j), mkLt(j, k)), P(j))))
				x.obligeSplit(h, kind, nm+".step", P(k), pos, props, s.text)
				q := freshVar(s.name, SInt)
				add(mkForall([]*Term{q}, mkImp(mkAnd(mkLe(lo, q), mkLt(q, hi)), P(q))))
				continue
			}
			if s.kind == "induct" {
				x.obligeSplit(append(append([]*Term{}, hyps...), mkLe(lo, hi)), kind, nm+".base", P(lo), pos, props, s.text)
				h := append(append([]*Term{}, hyps...), mkLe(lo, k), mkLt(k, hi), P(k))
				x.obligeSplit(h, kind, nm+".step", P(mkAddC(k, 1)), pos, props, s.text)
			} else {
				x.obligeSplit(append(append([]*Term{}, hyps...), mkLe(lo, hi)), kind, nm+".base", P(hi), pos, props, s.text)
				h := append(append([]*Term{}, hyps...), mkLt(lo, k), mkLe(k, hi), P(k))
				x.obligeSplit(h, kind, nm+".step", P(mkAddC(k, -1)), pos, props, s.text)
			}
			q := freshVar(s.name, SInt)
			add(mkForall([]*Term{q}, mkImp(mkAnd(mkLe(lo, q), mkLe(q, hi)), P(q))))
			add(mkImp(mkLe(lo, hi), mkAnd(P(lo), P(hi))))
		}
	}
}

// stepsFormula is the statement that a list of proof steps establishes.
func (x *Exec) stepsFormula(e *evalCtx, steps []proofStep) *Term {
	if len(steps) == 0 {
		return tTrue
	}
	s, rest := steps[0], steps[1:]
	switch s.kind {
	case "fix":
		v := freshVar(s.name, baseSort(s.sort))
		e2 := e.with(s.name, wrapSort(x, v, s.sort))
		if s.lo != nil {
			return mkForall([]*Term{v}, x.stepsFormula(e2, rest), []*Term{T(e2.eval(s.lo))})
		}
		return mkForall([]*Term{v}, x.stepsFormula(e2, rest))
	case "take":
		v := freshVar(s.name, baseSort(s.sort))
		return mkExists([]*Term{v}, x.stepsFormula(e.with(s.name, wrapSort(x, v, s.sort)), rest))
	case "define":
		v := freshVar(s.name, SAsg)
		return mkExists([]*Term{v}, x.stepsFormula(e.with(s.name, v), rest))
	case "list":
		v := freshVar(s.name, baseSort("Feats"))
		return mkExists([]*Term{v}, x.stepsFormula(e.with(s.name, wrapSort(x, v, "Feats")), rest))
	case "set":
		return x.stepsFormula(e.with(s.name, e.x.deep(e.st, e.eval(s.e))), rest)
	case "assume":
		t := e.b(s.e)
		if t.isFalse() {
			return tTrue
		}
		return mkImp(t, x.stepsFormula(e, rest))
	case "show":
		t := e.b(s.e)
		return mkAnd(t, x.stepsFormula(e, rest))
	}
	return x.stepsFormula(e, rest)
}

func (x *Exec) obligeSplit(hyps []*Term, kind, name string, g *Term, pos token.Pos, props []string, text string) {
	if x.quiet > 0 {
		return
	}
	ps := splitGoal(g, true)
	if len(ps) == 0 {
		// trivially true: still an obligation discharged by simplification
		o := &Oblig{Name: name, Kind: kind, goal: tTrue, Fn: fnName(x.topFn), Props: props, Stmt: text}
		x.setPos(o, pos)
		x.obls = append(x.obls, o)
		return
	}
	for i, p := range ps {
		n := name
		if len(ps) > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		o := &Oblig{Name: n, Kind: kind, goal: p.goal, Fn: fnName(x.topFn), Props: props, Stmt: text,
			hyps: append(append([]*Term{}, hyps...), p.hyps...)}
		x.setPos(o, pos)
		x.obls = append(x.obls, o)
	}
}
func (x *Exec) setPos(o *Oblig, pos token.Pos) {
	if pos.IsValid() {
		p := x.prog.Fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
	}
}

// ---------------------------------------------------------------- contracts at calls

func paramEnv(fn *ssa.Function, args []Value) map[string]Value {
	env := map[string]Value{}
	for i, p := range fn.Params {
		n := i
		if fn.Signature.Recv() != nil {
			if i == 0 {
				env["recv"] = args[0]
				env[p.Name()] = args[0]
				continue
			}
			n = i - 1
		}
		env[fmt.Sprintf("arg%d", n)] = args[i]
		if p.Name() != "" && p.Name() != "_" {
			env[p.Name()] = args[i]
		}
	}
	return env
}

func (e *evalCtx) lets(cs []*clause) {
	for _, l := range cs {
		e.env[l.label] = e.x.deep(e.st, e.eval(l.e))
	}
}

func (x *Exec) callContract(st *State, fn *ssa.Function, ct *Contract, args []Value, pos token.Pos) []Outcome {
	var env map[string]Value
	if fn.Blocks != nil || len(fn.Params) > 0 {
		env = paramEnv(fn, args)
	} else {
		env = map[string]Value{}
		off := 0
		if fn.Signature.Recv() != nil {
			env["recv"] = args[0]
			off = 1
		}
		for i := off; i < len(args); i++ {
			env[fmt.Sprintf("arg%d", i-off)] = args[i]
		}
	}
	return x.useContract(st, ct, env, fn.Signature, pos)
}
func (x *Exec) callContractIface(st *State, ct *Contract, iv *IfaceV, args []Value, sig *types.Signature, pos token.Pos) []Outcome {
	env := map[string]Value{"recv": iv}
	for i, a := range args {
		env[fmt.Sprintf("arg%d", i)] = a
	}
	return x.useContract(st, ct, env, sig, pos)
}

func (x *Exec) useContract(st *State, ct *Contract, env map[string]Value, sig *types.Signature, pos token.Pos) []Outcome {
	pre := st.clone()
	e := &evalCtx{x: x, st: pre, old: pre, env: env}
	if ct.noexec {
		x.note("contract of " + ct.name + ": " + ct.trusted)
	}
	// lets are evaluated in the pre-state
	ne := e.with()
	ne.lets(ct.lets)
	for _, r := range ct.requires {
		g := ne.b(r.e)
		x.obligeSplit(st.hyps(), "requires", "precondition "+r.label+" of "+ct.name, g, pos, nil, r.text)
		st.assume(mkImp(mkAnd(st.pc...), g))
	}
	for _, m := range ct.modifies {
		if _, ok := st.ghost[m]; ok {
			st.ghost[m] = x.freshT("g_"+m, st.ghost[m].(*Term).sort)
			continue
		}
		p, ok := env[m].(*PtrV)
		if !ok {
			fail("modifies %s: not a pointer", m)
		}
		o := *st.heap[p.obj]
		if !o.mut {
			fail("modifies %s: shared object", m)
		}
		t := o.typ
		if len(p.path) > 0 || t == nil {
			fail("modifies %s: inner pointer", m)
		}
		o.val = x.freshV("mod_"+m, t)
		st.heap[p.obj] = &o
	}
	var rets []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, x.freshV(fmt.Sprintf("r%d", i), sig.Results().At(i).Type()))
	}
	x.calls = append(x.calls, callRec{ct.name, rets})
	post := &evalCtx{x: x, st: st, old: pre, env: ne.env}
	post = post.with()
	for i, r := range rets {
		post.env[fmt.Sprintf("ret%d", i)] = r
	}
	for _, c := range ct.ensures {
		if c.e == nil {
			st.assume(x.stepsFormula(post, c.steps))
			continue
		}
		// g == e over the state before determines the new value of g
		if b, ok := c.e.(*ast.BinaryExpr); ok && b.Op == token.EQL {
			if id, ok := b.X.(*ast.Ident); ok && slices.Contains(ct.modifies, id.Name) {
				if g, ok := pre.ghost[id.Name].(*Term); ok && g.sort == SInt {
					if t := post.t(b.Y); !occurs(T(st.ghost[id.Name]), t) {
						st.ghost[id.Name] = t
						continue
					}
				}
			}
		}
		st.assume(post.b(c.e))
	}
	return one(st, rets...)
}

// ---------------------------------------------------------------- loop invariants

func (x *Exec) loopInvariant(fr *Frame, st *State, l *Loop, pred *ssa.BasicBlock, ls *loopSpec, owner string) []Outcome {
	s0 := st.clone()
	x.phis(s0, l.header, pred)
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	objs := map[int]bool{}
	fields := map[int]map[int]bool{} // changed fields of a changed struct
	ghosts := map[string]bool{}
	newLen := map[int]bool{}   // lists whose length changes
	notOwned := map[int]bool{} // lists whose elements are not lists of our own
	havoc := func(id int, v Value) Value {
		x.site = append(x.site, fmt.Sprint("h", id))
		defer func() { x.site = x.site[:len(x.site)-1] }()
		return x.havocLike(v)
	}
	start := func() *State {
		s := s0.clone()
		for i, p := range phis {
			s.env[p] = havoc(-1-i, x.keepRef(s, s0.env[p]))
		}
		for id := range objs {
			o := *s.heap[id]
			if sv, ok := o.val.(*StructV); ok && sv.idx == nil {
				h := havoc(id, sv).(*StructV)
				for f := range h.F {
					if !fields[id][f] {
						h.F[f] = sv.F[f]
					}
				}
				o.val = h
			} else {
				own := elemsOwned(o.val)
				old, isList := o.val.(*ListV)
				o.val = havoc(id, o.val)
				if isList && old.elem != nil && !newLen[id] {
					// only elements are stored into: the length stays
					l := *o.val.(*ListV)
					k := freshVar("k", SInt)
					l.segs = []*Seg{compSeg(k, mkInt(0), old.length(), tTrue, []*Seg{litSeg((&ListV{elem: l.elem, segs: l.segs}).index(k))}, false)}
					o.val = &l
				}
				if l, ok := o.val.(*ListV); ok && own > 0 && !notOwned[id] {
					o.val = ownElems(l)
				}
			}
			s.heap[id] = &o
		}
		for g := range ghosts {
			s.ghost[g] = havoc(-100-len(g), s.ghost[g])
		}
		return s
	}
	// links: a ghost counter that moves in step with an integer variable
	links := map[string]*ssa.Phi{}
	start0 := start
	start = func() *State {
		s := start0()
		for g, p := range links {
			s.ghost[g] = mkAdd(T(s.env[p]), mkSub(T(s0.ghost[g]), T(s0.env[p])))
		}
		return s
	}
	var ev func(s *State) *evalCtx
	ev = func(s *State) *evalCtx {
		e := &evalCtx{x: x, st: s, old: x.entry, env: x.topEnv}
		cell := func(name string) Value {
			for _, p := range phis {
				if p.Comment == name {
					return s.env[p]
				}
			}
			if name == "index" {
				// how many iterations are done, for a loop that counts upwards
				for _, p := range phis {
					if t, ok := s.env[p].(*Term); ok && p.Comment == "rangeindex" {
						return mkAddC(t, 1)
					}
				}
				for _, p := range phis {
					if loopCounter(l, p) {
						return s.env[p]
					}
				}
				return nil
			}
			for v, val := range s.env {
				switch a := v.(type) {
				case *ssa.Alloc:
					if a.Comment == name && a.Parent() == fr.fn {
						return s.heap[val.(*PtrV).obj].val
					}
				case *ssa.Parameter:
					if a.Name() == name && a.Parent() == fr.fn {
						return val
					}
				case *ssa.FreeVar:
					if a.Name() == name && a.Parent() == fr.fn {
						if p, ok := val.(*PtrV); ok {
							return x.load(s, p, token.NoPos)
						}
						return val
					}
				}
			}
			if v := x.debugVal(fr.fn, name, s, l.header); v != nil {
				return v
			}
			if strings.HasPrefix(name, "init_") {
				for _, p := range phis {
					if p.Comment == name[5:] {
						return s0.env[p]
					}
				}
			}
			return nil
		}
		e.cell = func(name string) Value {
			if v := cell(name); v != nil {
				return v
			}
			if k := len(x.callers); k > 0 && fnName(fr.fn) != owner {
				// a variable of the caller that is passed on
				c := x.callers[k-1]
				if v := x.callerVal(s, c, name); v != nil {
					for i, a := range c.args {
						if a == v && i < len(fr.fn.Params) {
							return cell(fr.fn.Params[i].Name())
						}
					}
				}
			}
			for _, n := range alternatives(fr.fn, owner, name) {
				if v := cell(n); v != nil {
					return v
				}
			}
			// a variable of a caller
			for i := len(x.callers) - 1; i >= 0; i-- {
				c := x.callers[i]
				for _, n := range append([]string{name}, alternatives(c.fn, owner, name)...) {
					if v := x.callerVal(s, c, n); v != nil {
						return v
					}
				}
			}
			return nil
		}
		e = e.with()
		if s != s0 {
			e.pre = ev(s0)
		} else {
			e.pre = e
		}
		e.lets(ls.lets)
		return e
	}
	assumeInv := func(s *State) {
		e := ev(s)
		for _, p := range phis {
			if t, ok := s.env[p].(*Term); ok && p.Comment == "rangeindex" {
				// the language keeps the index of a range loop within the range
				s.assume(mkGe0(mkAddC(t, 1)))
				if n := x.rangeLen(s, l, p); n != nil {
					s.assume(mkOr(mkLt(t, n), mkEq(t, mkInt(-1))))
				}
			} else if loopCounter(l, p) {
				// every iteration adds one
				if a, ok := s0.env[p].(*Term); ok {
					if b, ok := s.env[p].(*Term); ok {
						s.assume(mkLe(a, b))
					}
				}
			}
		}
		for _, c := range ls.invs {
			if c.e == nil {
				s.assume(x.stepsFormula(e, c.steps))
				continue
			}
			s.assume(e.b(c.e))
		}
	}
	split0 := splitLists
	defer func() { splitLists = split0 }()
	splitLists = true
	// discover what the body changes
	for round := 0; ; round++ {
		if round > 6 {
			fail("loop invariant: modified set does not stabilise")
		}
		x.quiet++
		nob := len(x.obls)
		s := start()
		at := s.clone()
		assumeInv(s)
		outs := x.run(fr, s, l.header, nil, l.bodyStops(), l.header)
		x.obls = x.obls[:nob]
		x.quiet--
		ch := false
		ref := start()
		for _, o := range outs {
			for id, ob := range ref.heap {
				if s0.heap[id] == nil || o.st.heap[id] == nil || sameV(o.st.heap[id].val, ob.val) {
					continue
				}
				if o.blk == l.header && objs[id] && !notOwned[id] && elemsOwned(s0.heap[id].val) > 0 && elemsOwned(o.st.heap[id].val) <= 0 {
					notOwned[id] = true
					ch = true
				}
				a, ok1 := o.st.heap[id].val.(*StructV)
				b, ok2 := ob.val.(*StructV)
				if ok1 && ok2 && b.idx == nil {
					if fields[id] == nil {
						fields[id] = map[int]bool{}
					}
					for f := range a.F {
						if !fields[id][f] && !sameV(a.F[f], b.F[f]) {
							fields[id][f] = true
							objs[id] = true
							ch = true
						}
					}
					continue
				}
				if !objs[id] {
					objs[id] = true
					ch = true
				}
				if a, ok := o.st.heap[id].val.(*ListV); ok && !newLen[id] {
					if b, ok := ob.val.(*ListV); ok && a.length() != b.length() {
						newLen[id] = true
						ch = true
					}
				}
			}
			for g, v := range ref.ghost {
				if !ghosts[g] && !sameV(o.st.ghost[g], v) {
					ghosts[g] = true
					ch = true
				}
			}
		}
		for _, o := range outs {
			if o.blk != l.header {
				continue
			}
			toks := map[int]int{}
			for id := range objs {
				if s0.heap[id] == nil || notOwned[id] || o.st.heap[id] == nil || elemsOwned(s0.heap[id].val) <= 0 {
					continue
				}
				for t := range tokens(elemsOwned(o.st.heap[id].val)) {
					if k, ok := toks[t]; ok && k != id {
						notOwned[id], notOwned[k] = true, true
						ch = true
					}
					toks[t] = id
				}
			}
		}
		if !ch && len(links) == 0 {
			for g := range ghosts {
				h, ok := at.ghost[g].(*Term)
				if !ok || h.sort != SInt {
					continue
				}
				for _, p := range phis {
					q, ok := at.env[p].(*Term)
					if !ok || q.sort != SInt {
						continue
					}
					n := 0
					for _, o := range outs {
						if o.blk != l.header {
							continue
						}
						n++
						x.phis(o.st, l.header, o.pred)
						a, ok1 := o.st.ghost[g].(*Term)
						b, ok2 := o.st.env[p].(*Term)
						if !ok1 || !ok2 || mkSub(mkSub(a, h), mkSub(b, q)) != mkInt(0) {
							n = -1 << 30
						}
					}
					if n > 0 {
						links[g] = p
						break
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	splitLists = split0
	pos := l.header.Instrs[0].Pos()
	if i := headerIf(l.header); i != nil {
		pos = i.Cond.Pos()
	}
	// entry
	e0 := ev(s0)
	for _, c := range ls.invs {
		x.prove(s0, e0, c, "loop", fmt.Sprintf("loop %d invariant %s holds on entry", l.ord, c.label), pos, c.props)
	}
	s := start()
	assumeInv(s)
	eh := ev(s.clone())
	var d0 []*Term
	for _, d := range ls.dec {
		d0 = append(d0, eh.t(d))
	}
	splitLists = true
	outs := x.run(fr, s, l.header, nil, l.bodyStops(), l.header)
	splitLists = split0
	var res []Outcome
	x.onceOnly(s0, outs, l)
	for _, r := range ls.resKs {
		if s0.ghost["chosen:"+r.fn] != nil {
			fail("resolve %s: chosen twice", r.fn)
		}
	}
	for _, o := range outs {
		if o.blk != l.header {
			for _, r := range ls.resKs {
				o.st.ghost["chosen:"+r.fn] = tTrue
			}
			if len(ls.final) > 0 {
				e := ev(o.st)
				e.hdr = eh
				for _, r := range ls.final {
					u, ok := x.spec.ufuns[r.fn]
					if !ok {
						fail("final %s: no such specification function", r.fn)
					}
					if r.key == nil {
						if s0.ghost["chosen:"+r.fn] != nil {
							fail("final %s: chosen twice", r.fn)
						}
						o.st.ghost["chosen:"+r.fn] = tTrue
						o.st.assume(mkEq(mkVar("u:"+r.fn, baseSort(u.res)), T(e.eval(r.val))))
						continue
					}
					k := e.t(r.key)
					x.obligeSplit(o.st.hyps(), "loop", fmt.Sprintf("loop %d resolves %s once", l.ord, r.fn), mkLe(eh.t(ls.resKey), k), pos, nil, "final")
					o.st.assume(mkEq(mkApp("u:"+r.fn, baseSort(u.res), k), T(e.eval(r.val))))
				}
			}
			res = append(res, o)
			continue
		}
		x.phis(o.st, l.header, o.pred)
		e := ev(o.st)
		e.hdr = eh
		if ls.resKey != nil {
			// choices are made once for every key
			k0, k1 := eh.t(ls.resKey), e.t(ls.resKey)
			for _, r := range ls.resKs {
				u, ok := x.spec.ufuns[r.fn]
				if !ok || len(u.args) != 1 {
					fail("resolve %s: no such specification function", r.fn)
				}
				k := e.t(r.key)
				x.obligeSplit(o.st.hyps(), "loop", fmt.Sprintf("loop %d resolves %s once", l.ord, r.fn), mkAnd(mkLe(k0, k), mkLt(k, k1)), pos, nil, "resolve")
				o.st.assume(mkEq(mkApp("u:"+r.fn, baseSort(u.res), k), T(e.eval(r.val))))
			}
		}
		for _, c := range ls.invs {
			x.prove(o.st, e, c, "loop", fmt.Sprintf("loop %d invariant %s is preserved", l.ord, c.label), pos, c.props)
		}
		if len(d0) > 0 {
			// lexicographic decrease of non-negative measures
			var alts []*Term
			var eqs []*Term
			for i, d := range ls.dec {
				n := e.t(d)
				alts = append(alts, mkAnd(append(append([]*Term{}, eqs...), mkLt(n, d0[i]), mkGe0(d0[i]))...))
				eqs = append(eqs, mkEq(n, d0[i]))
			}
			x.obligeSplit(o.st.hyps(), "loop", fmt.Sprintf("loop %d variant decreases", l.ord), mkOr(alts...), pos, nil, "decreases")
		}
	}
	return res
}

// onceOnly: the functions a loop chooses values for are chosen by one execution of it.
func (x *Exec) onceOnly(s0 *State, outs []Outcome, l *Loop) {
	for _, o := range outs {
		if o.blk != l.header {
			continue
		}
		for g := range o.st.ghost {
			if strings.HasPrefix(g, "chosen:") && s0.ghost[g] == nil {
				fail("%s in an iteration of another loop", g)
			}
		}
	}
}

// rangeLen is the length a range loop compares its index with.
func (x *Exec) rangeLen(s *State, l *Loop, p *ssa.Phi) *Term {
	i := headerIf(l.header)
	if i == nil {
		return nil
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return nil
	}
	b, ok := c.X.(*ssa.BinOp)
	if !ok || b.X != ssa.Value(p) {
		return nil
	}
	if d, ok := c.Y.(ssa.Instruction); ok && l.blocks[d.Block()] {
		return nil
	}
	t, _ := x.val(s, c.Y).(*Term)
	return t
}

// loopCounter: the variable is compared in the header and one larger after every iteration.
func loopCounter(l *Loop, p *ssa.Phi) bool {
	i := headerIf(l.header)
	if i == nil {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok || c.X != ssa.Value(p) && c.Y != ssa.Value(p) {
		return false
	}
	n := 0
	for k, e := range p.Edges {
		if !l.blocks[l.header.Preds[k]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
			return false
		}
		if one, ok := b.Y.(*ssa.Const); !ok || one.Value == nil || one.Int64() != 1 {
			return false
		}
		n++
	}
	return n > 0
}

// keepRef: slices made by make stay references.
func (x *Exec) keepRef(s *State, v Value) Value { return v }

// elemsOwned is the ownership of the elements of a list of lists.
func elemsOwned(v Value) int {
	l, ok := v.(*ListV)
	if !ok || l.elem == nil || len(l.segs) == 0 {
		return 0
	}
	if _, ok := l.elem.Underlying().(*types.Slice); !ok {
		return 0
	}
	e, ok := l.index(freshVar("k", SInt)).(*ListV)
	if !ok {
		return 0
	}
	return e.own
}

// ownElems: the same list, its elements owned under a new token.
func ownElems(l *ListV) *ListV {
	k := freshVar("k", SInt)
	e, ok := l.index(k).(*ListV)
	if !ok {
		return l
	}
	n := *e
	n.own = newOwn()
	return &ListV{elem: l.elem, own: l.own, segs: []*Seg{compSeg(k, mkInt(0), l.length(), tTrue, []*Seg{litSeg(&n)}, false)}}
}

func tokens(o int) map[int]bool {
	r := map[int]bool{}
	if o > ownFull {
		r[o] = true
		if ps, ok := ownPar.Load(o); ok {
			for _, p := range ps.([]int) {
				for t := range tokens(p) {
					r[t] = true
				}
			}
		}
	}
	return r
}

// havocLike gives an arbitrary value of the same shape.
func (x *Exec) havocLike(v Value) Value {
	switch y := v.(type) {
	case *Term:
		return x.freshT("hv", y.sort)
	case *StructV:
		n := &StructV{names: y.names}
		for _, f := range y.F {
			n.F = append(n.F, x.havocLike(f))
		}
		if y.idx != nil {
			n.idx = x.freshT("hvidx", SInt)
		}
		return n
	case *ListV:
		if y.elem == nil {
			return x.freshT("hv", SStr)
		}
		return &ListV{elem: y.elem, own: y.own, segs: []*Seg{baseSeg(x.freshT("hvl", SRef))}}
	case *MapV:
		r := x.freshT("hvm", SRef)
		args := append([]*Term{r}, y.keys...)
		n := &MapV{keys: y.keys, elem: y.elem}
		n.has = mkApp("mhas:"+keySig(args), SBool, args...)
		n.get = symValue(y.elem, "mget:"+keySig(args), func(p, s string) *Term { return mkApp(p, s, args...) })
		return n
	case *IfaceV:
		if y.term != nil {
			return &IfaceV{term: x.freshT("hvo", SObj), st: y.st}
		}
	case *TupleV:
		n := &TupleV{}
		for _, f := range y.vs {
			n.vs = append(n.vs, x.havocLike(f))
		}
		return n
	}
	return v
}

// callerVal is the value of a variable of a function whose call is inlined.
func (x *Exec) callerVal(s *State, c caller, name string) Value {
	if c.fn == nil {
		return nil
	}
	for v, val := range c.env {
		switch a := v.(type) {
		case *ssa.Alloc:
			if p, ok := val.(*PtrV); ok && a.Comment == name && s.heap[p.obj] != nil {
				return s.heap[p.obj].val
			}
		case *ssa.Parameter:
			if a.Name() == name {
				return val
			}
		}
	}
	t := *s
	t.env = c.env
	return x.debugVal(c.fn, name, &t, nil)
}

// debugVal finds the value of a local variable by its source name: the latest
// definition on every path to the given block.
func (x *Exec) debugVal(fn *ssa.Function, name string, s *State, at *ssa.BasicBlock) Value {
	var best *ssa.DebugRef
	var bestB *ssa.BasicBlock
	bestI := -1
	for _, b := range fn.Blocks {
		for k, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok {
				continue
			}
			id, ok := d.Expr.(*ast.Ident)
			if !ok || id.Name != name {
				continue
			}
			db, di := b, k
			switch v := d.X.(type) {
			case *ssa.Const:
			case ssa.Instruction:
				if _, ok := s.env[d.X]; !ok {
					continue
				}
				db = v.Block()
				for j, in := range db.Instrs {
					if in == v {
						di = j
					}
				}
			default:
				if _, ok := s.env[d.X]; !ok {
					continue
				}
				db, di = fn.Blocks[0], -1
			}
			if at != nil && !db.Dominates(at) {
				continue
			}
			if best == nil || at == nil && bestB.Dominates(db) && db != bestB || db == bestB && di >= bestI || db != bestB && bestB.Dominates(db) {
				best, bestB, bestI = d, db, di
			}
		}
	}
	if best == nil {
		return nil
	}
	if c, ok := best.X.(*ssa.Const); ok {
		return constValue(c)
	}
	v := s.env[best.X]
	if best.IsAddr {
		return x.load(s, v, token.NoPos)
	}
	return v
}
