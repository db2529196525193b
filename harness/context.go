package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/jtcaraball/goexpdt/query"
)

type triple struct {
	v    qv
	i, k int
}

var nameParts = []string{"", "x", "y", "xy", "x1", "1", "11", "a b", "_", "0", "01", "x\x1e", "X", "é", "x,", "reach\x1ex"}

func rTriple(r *rand.Rand) triple {
	t := triple{qv(nameParts[r.Intn(len(nameParts))]), r.Intn(4), r.Intn(4)}
	switch r.Intn(12) {
	case 0:
		t.i = r.Intn(5000)
	case 1:
		t.k = -1 - r.Intn(3)
	case 2:
		t.i, t.k = r.Intn(1<<40), r.Intn(1<<40)
	case 3:
		t.i = -1 - r.Intn(3)
	}
	if r.Intn(3) == 0 {
		t.v += qv(nameParts[r.Intn(len(nameParts))])
	}
	return t
}

func varCase(r *rand.Rand, idx int, st *stats) string {
	ctx := query.BasicQContext(model{dim: 1 + r.Intn(3)})
	known := map[triple]int{}
	var order []triple
	top := 0
	log := ""
	n := 30 + r.Intn(60)
	if r.Intn(100) == 0 {
		n = 3000
	}
	for k := 0; k < n; k++ {
		t := rTriple(r)
		if len(order) > 0 && r.Intn(3) == 0 {
			t = order[r.Intn(len(order))]
			switch r.Intn(4) {
			case 0:
				t.i, t.k = t.k, t.i
			case 1:
				t.i++
			}
		}
		if len(log) < 600 {
			log += " "
		}
		switch o := r.Intn(20); {
		case o < 10:
			if len(log) < 600 {
				log += fmt.Sprintf("CNFVar(%q,%d,%d)", t.v, t.i, t.k)
			}
			got := ctx.CNFVar(t.v, t.i, t.k)
			if w, ok := known[t]; ok {
				if got != w {
					return fmt.Sprintf("%s gives %d, before %d", log, got, w)
				}
			} else {
				if got <= top || got < 1 {
					return fmt.Sprintf("%s: new number %d not above %d", log, got, top)
				}
				known[t] = got
				order = append(order, t)
				top = got
			}
		case o < 14:
			if len(log) < 600 {
				log += fmt.Sprintf("Exists(%q,%d,%d)", t.v, t.i, t.k)
			}
			_, w := known[t]
			if got := ctx.CNFVarExists(t.v, t.i, t.k); got != w {
				return fmt.Sprintf("%s gives %v", log, got)
			}
		case o < 17:
			v := top - 3 + r.Intn(9)
			if r.Intn(8) == 0 {
				v = top + r.Intn(1000)
			}
			if r.Intn(12) == 0 {
				v = -r.Intn(5)
			}
			if len(log) < 600 {
				log += fmt.Sprintf("UpdateTopV(%d)", v)
			}
			ok := ctx.UpdateTopV(v)
			if v < top && ok || v > top && !ok {
				return fmt.Sprintf("%s gives %v with top %d", log, ok, top)
			}
			if v > top {
				top = v
			}
		case o < 18:
			ctx.ScopeVar(t.v)
			ctx.AddVar(t.v)
			ctx.AddScope("s")
			ctx.SetScope(1, nil)
			ctx.ScopeVar(t.v)
			ctx.PopScope()
		case o < 19 && r.Intn(6) == 0:
			log += "Reset"
			ctx.Reset()
			known, order, top = map[triple]int{}, nil, 0
			if ctx.TopV() != 0 {
				return log + ": top value after a reset"
			}
		}
		if got := ctx.TopV(); got != top {
			return fmt.Sprintf("%s: top %d, expected %d", log, got, top)
		}
	}
	used := map[int]triple{}
	for _, t := range order {
		v := ctx.CNFVar(t.v, t.i, t.k)
		if v != known[t] {
			return fmt.Sprintf("%s: number of %v changed to %d", log, t, v)
		}
		if o, ok := used[v]; ok {
			return fmt.Sprintf("%s: %v and %v share %d", log, o, t, v)
		}
		used[v] = t
	}
	st.nontrivial++
	st.sample = log
	return ""
}

// ---------------------------------------------------------------- scopes

type rscope struct {
	tgt string
	idx int
	val inst
}

// refScoper is the meaning of the scoper: what a variable's name depends on.
type refScoper struct {
	sc   []rscope
	vars map[qv]int // depth at introduction
}

func (s *refScoper) key(v qv) string {
	k := fmt.Sprintf("%q", string(v))
	for i := 0; i < s.vars[v] && i < len(s.sc); i++ {
		k += fmt.Sprintf("|%q#%d", s.sc[i].tgt, s.sc[i].idx)
	}
	return k
}

var plain = []string{"x", "y", "xy", "x1", "1", "", "11", "a b", "x\x1e", "c", "cx", "é"}

func scopeCase(r *rand.Rand, idx int, st *stats) string {
	m := model{dim: 2}
	ctx := query.BasicQContext(m)
	ref := &refScoper{vars: map[qv]int{}}
	byKey, byName := map[string]qv{}, map[qv]string{}
	log := ""
	say := func(f string, a ...any) {
		if len(log) < 900 {
			log += " " + fmt.Sprintf(f, a...)
		}
	}
	steps := 15 + r.Intn(50)
	for k := 0; k < steps; k++ {
		name := plain[r.Intn(len(plain))]
		switch r.Intn(9) {
		case 0:
			if len(ref.sc) < 5 {
				say("AddScope(%q)", name)
				ctx.AddScope(name)
				ref.sc = append(ref.sc, rscope{tgt: name})
			}
		case 1:
			say("PopScope")
			err := ctx.PopScope()
			if (err == nil) != (len(ref.sc) > 0) {
				return fmt.Sprintf("%s: error %v with %d scopes open", log, err, len(ref.sc))
			}
			if n := len(ref.sc); n > 0 {
				for v, d := range ref.vars {
					if d == n {
						delete(ref.vars, v)
					}
				}
				ref.sc = ref.sc[:n-1]
			}
		case 2, 3:
			i := r.Intn(4)
			if r.Intn(6) == 0 {
				i = 9 + r.Intn(120)
			}
			v := rInst(r, r.Intn(4))
			say("SetScope(%d,%s)", i, istr(v))
			err := ctx.SetScope(i, v)
			if (err == nil) != (len(ref.sc) > 0) {
				return fmt.Sprintf("%s: error %v with %d scopes open", log, err, len(ref.sc))
			}
			if n := len(ref.sc); n > 0 {
				ref.sc[n-1].idx, ref.sc[n-1].val = i, v
			}
		case 4, 5:
			say("AddVar(%q)", name)
			ctx.AddVar(qv(name))
			if _, ok := ref.vars[qv(name)]; !ok && len(ref.sc) > 0 {
				ref.vars[qv(name)] = len(ref.sc)
			}
		case 6:
			if r.Intn(8) == 0 {
				say("Reset")
				ctx.Reset()
				ref.sc, ref.vars = nil, map[qv]int{}
			}
		case 7:
			c := query.QConst{ID: name, Val: rInst(r, 2)}
			say("ScopeConst(%q)", name)
			got, ok := ctx.ScopeConst(c)
			w, wok := c, false
			for _, s := range ref.sc {
				if s.tgt == name {
					w, wok = query.QConst{ID: name, Val: s.val}, true
					break
				}
			}
			if ok != wok || got.ID != w.ID || istr(got.Val) != istr(w.Val) {
				return fmt.Sprintf("%s gives %v %v", log, got, ok)
			}
		default:
			say("ScopeVar(%q)", name)
		}
		// every name is looked up after every step, repeatedly
		for _, p := range plain {
			v := qv(p)
			n := ctx.ScopeVar(v)
			if n2 := ctx.ScopeVar(v); n2 != n {
				return fmt.Sprintf("%s: two lookups of %q give %q and %q", log, p, n, n2)
			}
			key := ref.key(v)
			if o, ok := byKey[key]; ok && o != n {
				return fmt.Sprintf("%s: %s is named %q and %q", log, key, o, n)
			}
			if o, ok := byName[n]; ok && o != key {
				return fmt.Sprintf("%s: %s and %s share the name %q", log, o, key, n)
			}
			byKey[key], byName[n] = n, key
		}
	}
	for n := len(ref.sc); n > 0; n-- {
		if err := ctx.PopScope(); err != nil {
			return log + ": scope lost"
		}
	}
	if ctx.PopScope() == nil {
		return log + ": too many scopes"
	}
	st.nontrivial++
	st.sample = strings.TrimSpace(log)
	return ""
}

func init() {
	sec("numbers", varCase, "C11")
	sec("scopes", scopeCase, "C13")
}
