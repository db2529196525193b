package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// ---------------------------------------------------------------- fake binary

// fakeSolver is what this program does when a check runs it as the solver:
// VH_SOLVER is a file holding: exit code (or "kill"), a path to copy the input
// to, and the output.
func fakeSolver(script string) {
	b, err := os.ReadFile(script)
	if err != nil {
		os.Exit(99)
	}
	parts := strings.SplitN(string(b), "\n", 3)
	if len(os.Args) > 1 && parts[1] != "" {
		in, err := os.ReadFile(os.Args[len(os.Args)-1])
		if err != nil {
			os.Exit(98)
		}
		os.WriteFile(parts[1], in, 0o644)
	}
	os.Stdout.WriteString(parts[2])
	if parts[0] == "kill" {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	n, _ := strconv.Atoi(parts[0])
	os.Stderr.WriteString("c stderr\nv 1 2 3 0\n")
	os.Exit(n)
}

type raw struct{ f cnf.CNF }

func (q raw) Encoding(ctx query.QContext) (cnf.CNF, error) { return q.f, nil }

// instance sets as formulas: v is in the set.
type inSet struct {
	v   qv
	set []inst
	dim int
}

func (q inSet) Encoding(ctx query.QContext) (cnf.CNF, error) {
	in := map[string]bool{}
	for _, s := range q.set {
		in[istr(s)] = true
	}
	v := ctx.ScopeVar(q.v)
	var cs []cnf.Clause
	for k := 0; k < pow3(q.dim); k++ {
		x := decode(k, q.dim)
		if in[istr(x)] {
			continue
		}
		c := cnf.Clause{}
		for i, f := range x {
			c = append(c, -ctx.CNFVar(v, i, int(f)))
		}
		cs = append(cs, c)
	}
	return cnf.FromClauses(cs), nil
}

func decode(k, dim int) inst {
	x := make(inst, dim)
	for i := range x {
		x[i] = query.FeatV(k % 3)
		k /= 3
	}
	return x
}

// modelOf finds a model of the clauses; the choice is random.
func modelOf(r *rand.Rand, nv int, cls ...[]cnf.Clause) []int {
	s := newSat(cls...)
	s.grow(nv)
	var as []int
	if s.solve() != satYes {
		return nil
	}
	for _, v := range r.Perm(s.n) {
		l := v + 1
		if r.Intn(2) == 0 {
			l = -l
		}
		if s.solve(append(as, l)...) != satYes {
			l = -l
		}
		as = append(as, l)
	}
	return as
}

// refSolver answers correctly and can be told to fail at a query.
type refSolver struct {
	r       *rand.Rand
	steps   int
	vals    int
	failAt  int // step that fails, 0 none
	vfailAt int
	err     error
	model   map[int]bool
}

var errSolver = errors.New("solver broke down")

func (s *refSolver) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	if s.steps == s.failAt {
		return s.err
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	sc, cc := f.Clauses()
	m := modelOf(s.r, f.TopV(), sc, cc)
	if m == nil && newSat(sc, cc).solve() == satNo {
		if s.r.Intn(2) == 0 {
			return fmt.Errorf("wrapped: %w", compute.UnsatError)
		}
		return compute.UnsatError
	}
	s.model = map[int]bool{}
	for _, l := range m {
		if l > 0 {
			s.model[l] = true
		}
	}
	return nil
}

func (s *refSolver) Values(vars []qv, ctx query.QContext) ([]query.QConst, error) {
	s.vals++
	if s.vals == s.vfailAt {
		return nil, s.err
	}
	var out []query.QConst
	for _, v := range vars {
		c := query.QConst{}
		for i := 0; i < ctx.Dim(); i++ {
			for _, k := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
				if s.model[ctx.CNFVar(v, i, int(k))] {
					c.Val = append(c.Val, k)
				}
			}
		}
		out = append(out, c)
	}
	return out, nil
}

func optimCase(r *rand.Rand, idx int, st *stats) string {
	dim := 1 + r.Intn(2)
	if r.Intn(6) == 0 {
		dim = 3
	}
	var set []inst
	p := r.Intn(101)
	for k := 0; k < pow3(dim); k++ {
		if r.Intn(100) < p {
			set = append(set, decode(k, dim))
		}
	}
	// a strict order: a random linear extension thinned out transitively
	n := pow3(dim)
	less := make([][]bool, n) // less[a][b]: a better than b
	rank := r.Perm(n)
	for a := range less {
		less[a] = make([]bool, n)
		for b := range less[a] {
			less[a][b] = rank[a] < rank[b] && r.Intn(3) > 0
		}
	}
	if r.Intn(2) == 0 { // transitive closure
		for k := 0; k < n; k++ {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					less[a][b] = less[a][b] || less[a][k] && less[k][b]
				}
			}
		}
	}
	code := map[string]int{}
	for k := 0; k < n; k++ {
		code[istr(decode(k, dim))] = k
	}
	mode := r.Intn(8)
	fgErr, ogErr := mode == 0, mode == 1
	v := []qv{"x", "target", "v1"}[r.Intn(3)]
	fg := func(v qv) compute.Encodable {
		if fgErr {
			return failing{}
		}
		return inSet{v, set, dim}
	}
	og := func(v qv, c query.QConst) compute.Encodable {
		if ogErr {
			return failing{}
		}
		var better []inst
		if b, ok := code[istr(c.Val)]; ok {
			for a := range less {
				if less[a][b] {
					better = append(better, decode(a, dim))
				}
			}
		}
		return inSet{v, better, dim}
	}
	if mode == 7 { // the level order, as documented
		g := gens{}.one("botc")
		og = func(v qv, c query.QConst) compute.Encodable {
			return logop.And{Q1: lel.VarConst{I1: v, I2: c, CountVarGen: g},
				Q2: logop.Not{Q: lel.ConstVar{I1: c, I2: v, CountVarGen: g}}}
		}
		for a := range less {
			for b := range less {
				less[a][b] = bots(decode(a, dim)) > bots(decode(b, dim))
			}
		}
	}
	s := &refSolver{r: r, err: errSolver}
	if mode == 2 {
		s.failAt = 1 + r.Intn(3)
	}
	if mode == 3 {
		s.vfailAt = 1 + r.Intn(3)
	}
	if s.failAt > 0 && r.Intn(3) == 0 {
		s.err = fmt.Errorf("run: %w", errSolver)
	}
	ctx := query.BasicQContext(model{dim: dim})
	if r.Intn(2) == 0 {
		ctx.CNFVar("left over", 1, 1)
	}
	what := fmt.Sprintf("dim %d set %v mode %d variable %q", dim, strs(set), mode, v)
	out, err := compute.ComputeOptim(fg, og, v, ctx, s)
	what += fmt.Sprintf(" steps %d values %d: found %v value %v calls %d error %v", s.steps, s.vals, out.Found, out.Value.Val, out.Calls, err)
	st.nontrivial++
	st.sample = what
	failed := fgErr || ogErr && len(set) > 0 || s.failAt > 0 && s.steps >= s.failAt || s.vfailAt > 0 && s.vals >= s.vfailAt
	if failed {
		if err == nil {
			return what + ": an error is lost"
		}
		if out.Found {
			return what + ": an answer is given together with an error"
		}
		if !errors.Is(err, errSolver) && !errors.Is(err, errProbe) {
			return what + ": the error is not the one that happened"
		}
		return ""
	}
	if err != nil {
		return what + ": unexpected error"
	}
	if out.Calls != s.steps {
		return what + ": number of calls"
	}
	if out.Found != (len(set) > 0) {
		return what + ": found"
	}
	if !out.Found {
		return ""
	}
	b, ok := code[istr(out.Value.Val)]
	if !ok {
		return what + ": not an instance"
	}
	in := false
	for _, x := range set {
		in = in || code[istr(x)] == b
		if less[code[istr(x)]][b] {
			return what + ": " + istr(x) + " is better"
		}
	}
	if !in {
		return what + ": the answer does not satisfy the formula"
	}
	return ""
}

func strs(set []inst) []string {
	var o []string
	for _, x := range set {
		o = append(o, istr(x))
	}
	return o
}

// optimEnv: a failing environment is an error; nothing stays behind.
func optimEnv(r *rand.Rand, idx int, st *stats) string {
	dir := filepath.Join(scratchDir(), "tmp")
	os.MkdirAll(dir, 0o755)
	old, had := os.LookupEnv("TMPDIR")
	defer func() {
		if had {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	bad := r.Intn(2) == 0
	if bad {
		os.Setenv("TMPDIR", filepath.Join(dir, "missing"))
	} else {
		os.Setenv("TMPDIR", dir)
	}
	set := []inst{{1}, {2}}
	fg := func(v qv) compute.Encodable {
		if r.Intn(4) == 0 {
			return failing{}
		}
		return inSet{v, set, 1}
	}
	og := func(v qv, c query.QConst) compute.Encodable {
		return subsumption.VarConst{I1: v, I2: query.QConst{Val: inst{0}}}
	}
	s := &refSolver{r: r, err: errSolver, failAt: r.Intn(4)}
	out, err := compute.ComputeOptim(fg, og, "x", query.BasicQContext(model{dim: 1}), s)
	if bad && err == nil {
		// an implementation that needs no temporary file may answer, correctly
		if !out.Found {
			return "no temporary directory: neither an error nor the answer"
		}
	}
	es, _ := os.ReadDir(dir)
	if len(es) > 0 {
		os.RemoveAll(dir)
		return "temporary file left behind by ComputeOptim: " + es[0].Name()
	}
	st.nontrivial++
	return ""
}

// ---------------------------------------------------------------- boolean combinations

type scripted struct {
	r    *rand.Rand
	ans  map[string]error
	log  []string
	bctx query.QContext
}

type named string

func (n named) Encoding(ctx query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }

func (s *scripted) Step(q compute.Encodable, ctx query.QContext) error {
	n := string(q.(named))
	s.log = append(s.log, n)
	return s.ans[n]
}

func (s *scripted) Values([]qv, query.QContext) ([]query.QConst, error) { return nil, nil }

type bnode struct {
	and  bool
	atom string
	neg  bool
	kids []*bnode
}

func (b *bnode) String() string {
	if b.atom != "" {
		if b.neg {
			return "!" + b.atom
		}
		return b.atom
	}
	var ks []string
	for _, k := range b.kids {
		ks = append(ks, k.String())
	}
	if b.and {
		return "and(" + strings.Join(ks, ",") + ")"
	}
	return "or(" + strings.Join(ks, ",") + ")"
}

func (b *bnode) build() compute.QDTFCombinator {
	if b.atom != "" {
		return compute.QDTFAtom{Query: named(b.atom), Negated: b.neg}
	}
	var ks []compute.QDTFCombinator
	for _, k := range b.kids {
		ks = append(ks, k.build())
	}
	if b.and {
		return compute.AndCombinator(ks)
	}
	return compute.OrCombinator(ks)
}

func boolCase(r *rand.Rand, idx int, st *stats) string {
	s := &scripted{r: r, ans: map[string]error{}}
	witherr := r.Intn(2) == 0
	n := 0
	var gen func(d int) *bnode
	gen = func(d int) *bnode {
		if d == 0 || r.Intn(3) == 0 {
			n++
			a := fmt.Sprintf("a%d", n)
			switch k := r.Intn(10); {
			case k < 4:
			case k < 6:
				s.ans[a] = compute.UnsatError
			case k < 8:
				s.ans[a] = fmt.Errorf("deep: %w", fmt.Errorf("wrap: %w", compute.UnsatError))
			case witherr && k == 8:
				s.ans[a] = errSolver
			case witherr:
				s.ans[a] = errors.New("Formula is not satisfiable")
			}
			return &bnode{atom: a, neg: r.Intn(3) == 0}
		}
		b := &bnode{and: r.Intn(2) == 0}
		for k := r.Intn(5); k > 0; k-- {
			b.kids = append(b.kids, gen(d-1))
		}
		return b
	}
	f := gen(1 + r.Intn(4))
	// reached in order, with the usual short circuit
	var eval func(b *bnode) (bool, error)
	eval = func(b *bnode) (bool, error) {
		if b.atom != "" {
			e := s.ans[b.atom]
			if e != nil && !errors.Is(e, compute.UnsatError) {
				return false, e
			}
			return (e == nil) != b.neg, nil
		}
		for _, k := range b.kids {
			v, e := eval(k)
			if e != nil {
				return false, e
			}
			if v != b.and {
				return v, nil
			}
		}
		return b.and, nil
	}
	want, werr := eval(f)
	var as []string
	for _, a := range sortedKeys(s.ans) {
		as = append(as, fmt.Sprintf("%s:%v", a, s.ans[a]))
	}
	sort.Strings(as)
	got, err := f.build().Sat(query.BasicQContext(model{dim: 1}), s)
	what := fmt.Sprintf("%v with %v gives %v, %v", f, as, got, err)
	st.nontrivial++
	st.sample = what
	if err != nil && errors.Is(err, compute.UnsatError) {
		return what + ": unsatisfiability reported as an error"
	}
	if err != nil && got {
		return what + ": a positive answer together with an error"
	}
	if werr != nil && err == nil {
		return what + ": the error is lost"
	}
	if werr == nil && err == nil && got != want {
		return what + ": wrong answer"
	}
	if err != nil {
		for _, a := range s.log {
			if s.ans[a] == err {
				return ""
			}
		}
		if werr == nil {
			return what + ": unexpected error"
		}
	}
	return ""
}

// ---------------------------------------------------------------- solver runs

func solverCase(r *rand.Rand, idx int, st *stats) string {
	dir := filepath.Join(scratchDir(), "solver")
	tmp := filepath.Join(dir, "tmp")
	os.MkdirAll(tmp, 0o755)
	old, had := os.LookupEnv("TMPDIR")
	defer func() {
		if had {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
		os.Unsetenv("VH_SOLVER")
	}()
	os.Setenv("TMPDIR", tmp)
	script, copyTo := filepath.Join(dir, "script"), filepath.Join(dir, "copy")
	os.Setenv("VH_SOLVER", script)
	self, _ := os.Executable()
	sol, err := compute.BinSolver(self)
	if err != nil {
		return "BinSolver: " + err.Error()
	}
	if _, err := compute.BinSolver(filepath.Join(dir, "nothing")); err == nil {
		return "BinSolver accepts a path that does not exist"
	}
	dim := 1 + r.Intn(3)
	if r.Intn(6) == 0 {
		dim = 10 + r.Intn(10)
	}
	ctx := query.BasicQContext(model{dim: dim})
	vars := []qv{"x", "y"}[:1+r.Intn(2)]
	if r.Intn(3) == 0 {
		ctx.UpdateTopV(r.Intn(200))
	}
	for _, i := range r.Perm(dim) {
		for _, v := range vars {
			for _, k := range r.Perm(3) {
				ctx.CNFVar(v, i, k)
			}
		}
	}
	ctx.CNFVar("other", 0, 0)
	trail := fmt.Sprintf("dim %d:", dim)
	var have map[qv]inst // last satisfying assignment, nil none yet
	for k := 0; k < 1+r.Intn(4); k++ {
		os.Remove(copyTo)
		val := map[qv]inst{}
		var ls []int
		for _, v := range vars {
			val[v] = rInst(r, dim)
			ls = append(ls, lits(ctx, v, val[v])...)
		}
		ls = append(ls, []int{1, -1}[r.Intn(2)]*ctx.CNFVar("other", 0, 0), 900000, -900001)
		if r.Intn(2) == 0 {
			r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
		} else {
			sort.Slice(ls, func(i, j int) bool { return abs(ls[i]) < abs(ls[j]) })
		}
		outText := solverOutput(r, ls)
		code := []string{"10", "10", "10", "20", "0", "1", "30", "127", "kill", "255", "11", "12", "21"}[r.Intn(13)]
		f, _, _, _ := rCNF(r, 6)
		var q compute.Encodable = raw{f}
		mode := r.Intn(12)
		os.WriteFile(script, []byte(code+"\n"+copyTo+"\n"+outText), 0o644)
		use := sol
		switch mode {
		case 0:
			q = failing{}
			code = "encode"
		case 1:
			os.Setenv("TMPDIR", filepath.Join(tmp, "missing"))
			code = "tmpdir"
		case 2:
			p := filepath.Join(dir, "notexec")
			os.WriteFile(p, []byte("#!/bin/sh\nexit 10\n"), 0o644)
			s2, err := compute.BinSolver(p)
			if err != nil {
				break
			}
			use = s2
			code = "start"
		}
		err := use.Step(q, ctx)
		os.Setenv("TMPDIR", tmp)
		trail += fmt.Sprintf(" step exit %s -> %v;", code, err)
		if es, _ := os.ReadDir(tmp); len(es) > 0 {
			os.RemoveAll(tmp)
			return trail + " temporary file left behind: " + es[0].Name()
		}
		switch code {
		case "10":
			if err != nil {
				return trail + " exit status 10 is not success"
			}
			have = val
		case "20":
			if err == nil || !errors.Is(err, compute.UnsatError) {
				return trail + " exit status 20 is not unsatisfiability"
			}
		case "tmpdir":
			// an implementation that needs no temporary directory may succeed
			if err == nil || errors.Is(err, compute.UnsatError) {
				have = nil
				return ""
			}
		default:
			if err == nil || errors.Is(err, compute.UnsatError) {
				return trail + " is not reported as an error"
			}
		}
		if _, e := strconv.Atoi(code); e == nil {
			in, e := os.ReadFile(copyTo)
			if e != nil || string(in) != string(f.ToBytes()) {
				return fmt.Sprintf("%s the solver was given %q instead of %q", trail, clipS(string(in)), clipS(string(f.ToBytes())))
			}
		}
		if have != nil && use == sol {
			sub := vars
			if r.Intn(3) == 0 {
				sub = []qv{vars[len(vars)-1]}
			}
			got, err := sol.Values(sub, ctx)
			if err != nil {
				return fmt.Sprintf("%s Values: %v", trail, err)
			}
			for i, v := range sub {
				if i >= len(got) || istr(got[i].Val) != istr(have[v]) {
					return fmt.Sprintf("%s Values gives %v instead of %s for %s; output %q", trail, got, istr(have[v]), v, clipS(outText))
				}
			}
		}
	}
	// malformed value lines
	bad := []string{"v 1x 0\n", "v 1 two 0\n", "v 1.5\n", "v 1 - 2\n", "v --1 0\n", "v 0x1 0\n", "c ok\nv 1 2\nv 3 foo\n", "v 99999999999999999999999 0\n", "v ½ 0\n"}[r.Intn(9)]
	pre := solverOutput(r, lits(ctx, vars[0], rInst(r, dim)))
	if r.Intn(2) == 0 {
		bad = pre + bad
	}
	os.WriteFile(script, []byte("10\n\n"+bad), 0o644)
	if err := sol.Step(raw{cnf.TrueCNF}, ctx); err != nil {
		return "step: " + err.Error()
	}
	if _, err := sol.Values(vars, ctx); err == nil {
		return fmt.Sprintf("no error for malformed value lines %q", bad)
	}
	st.nontrivial++
	st.sample = trail
	return ""
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// solverOutput writes the literals as value lines in some legal layout.
func solverOutput(r *rand.Rand, ls []int) string {
	var b strings.Builder
	b.WriteString("c a comment with numbers 1 -2 3\n")
	if r.Intn(2) == 0 {
		b.WriteString("s SATISFIABLE\n")
	}
	if r.Intn(4) == 0 {
		b.WriteString("c v 1 2 3 broken\n\n")
	}
	lim := []int{1, 3, 8, 1000}[r.Intn(4)]
	style := r.Intn(4)
	eol := "\n"
	if r.Intn(5) == 0 {
		eol = "\r\n"
	}
	for len(ls) > 0 {
		n := lim
		if r.Intn(3) == 0 {
			n = 1 + r.Intn(lim)
		}
		if n > len(ls) {
			n = len(ls)
		}
		b.WriteString("v")
		for _, l := range ls[:n] {
			switch style {
			case 1:
				b.WriteString(strings.Repeat(" ", 1+r.Intn(3)))
			case 2:
				b.WriteString([]string{" ", "\t"}[r.Intn(2)])
			default:
				b.WriteString(" ")
			}
			b.WriteString(strconv.Itoa(l))
		}
		if style == 3 {
			b.WriteString(" ")
		}
		b.WriteString(eol)
		ls = ls[n:]
		if r.Intn(6) == 0 {
			b.WriteString("c in between 5\n")
		}
		if r.Intn(8) == 0 {
			b.WriteString("v" + eol)
		}
	}
	switch r.Intn(3) {
	case 0:
		b.WriteString("v 0" + eol)
	case 1:
		b.WriteString("v 0")
	}
	return b.String()
}

// solverOptim runs an optimisation with the program as solver on the way.
func init() {
	sec("optim", optimCase, "C14")
	sec("optim-env", optimEnv, "C14")
	sec("bool", boolCase, "C15")
	sec("solver", solverCase, "C16")
}
