// C07: determinant feature sets.

// full instances that agree on the features c defines, and are classified alike
fn alike(e, g, c) = all(f, 0, dim, imp(c[f] != 0, e[f] == g[f]))
fn sameClass(e, g) = all(m, 0, len(nodes), all(n, 0, len(nodes), imp(leaf(m) && leaf(n) && takes(e, m) && takes(g, n), iff(nodes[m].Value, nodes[n].Value))))
fn determinant(c) = allp(e, "Feats", g, "Feats", imp(full(e) && full(g) && alike(e, g, c), sameClass(e, g)), pats(len(e), len(g)))
fn vDeterminant(a, x) = allp(e, "Feats", g, "Feats", imp(full(e) && full(g) && all(f, 0, dim, imp(vv(a, x, f) != 0, e[f] == g[f])), sameClass(e, g)), pats(len(e), len(g)))
// a feature of c tells the two leaves apart
fn apart(c, m, n) = ex(f, 0, dim, c[f] != 0 && pv(m, f) != 0 && pv(n, f) != 0 && pv(m, f) != pv(n, f))
fn allApart(c) = all(m, 0, len(nodes), all(n, 0, len(nodes), imp(leaf(m) && leaf(n) && nodes[m].Value && !nodes[n].Value, apart(c, m, n))))

lemma necessary
	props C07 C08 C17 C19
	param c Feats
	requires tree: treeShape() && treeValues()
	requires len: len(c) == dim
	ensures pair:
		use values
		assume determinant(c)
		fix m Int on reach(m)
		fix n Int on reach(n)
		assume leaf(m) && leaf(n) && nodes[m].Value && !nodes[n].Value
		list e; dim; f: ite(pv(m, f) != 0, pv(m, f), ite(c[f] != 0 && pv(n, f) != 0, pv(n, f), 1))
		list g; dim; f: ite(pv(n, f) != 0, pv(n, f), ite(c[f] != 0 && pv(m, f) != 0, pv(m, f), 1))
		have full(e) && full(g) && takes(e, m) && takes(g, n)
		have apart(c, m, n) || alike(e, g, c)
		have apart(c, m, n) || sameClass(e, g)
		show apart(c, m, n)
lemma determinants
	props C07 C08 C17 C19
	param c Feats
	requires tree: treeShape() && treeValues()
	requires len: len(c) == dim
	ensures same:
		use necessary; c
		have imp(determinant(c), allApart(c))
		have imp(allApart(c), determinant(c))
		show iff(determinant(c), allApart(c))

// every tree has a leaf
lemma inhabited
	props C07 C08 C17 C19
	requires tree: tree()
	ensures leaf:
		assume len(nodes) > 0 && validNodes() && dim >= 0
		use classified
		list e; dim; f: 1
		show ex(n, 0, len(nodes), leaf(n))

// the walk over the tree stands at p, v is its partial instance, and the nodes
// seen are closed: the parents, and the children of all but the ancestors of p
fn walkOk(w, v, p) = len(w) == len(nodes) && len(v) == dim && reach(p) && all(f, 0, dim, v[f] == pv(p, f)) &&
	all(n, 0, len(nodes), imp(w[n].visited, reach(n) && imp(n != 0, w[n].prev == par(n) && w[par(n)].visited))) &&
	all(n, 0, len(nodes), imp(w[n].visited && inner(n) && !anc(n, p), w[zc(n)].visited && w[oc(n)].visited))
fn isLeaf(x, n) = len(x.Val) == dim && all(f, 0, dim, x.Val[f] == pv(n, f))
// the list holds the partial instances of leaves of class v, those of all such leaves seen
fn leaves(l, w, v) = all(k, 0, len(l), ex(n, 0, len(nodes), leaf(n) && iff(nodes[n].Value, v) && isLeaf(l[k], n))) &&
	all(n, 0, len(nodes), imp(leaf(n) && w[n].visited && iff(nodes[n].Value, v), ex(k, 0, len(l), isLeaf(l[k], n))))

// a feature of the instance tells the leaf of the list from every leaf of the other class
fn toldC(c, p) = all(n, 0, len(nodes), imp(leaf(n) && !nodes[n].Value, ex(f, 0, dim, c.Val[f] != 0 && p.Val[f] != 0 && pv(n, f) != 0 && p.Val[f] != pv(n, f))))

contract (query/extensions/dfs.Const).Encoding
	props C07 C17
	paths
	let c = sconst(recv.I)
	requires feats: feats(c)
	requires tree: tree()
	loop query/extensions/dfs.leafsAsConsts 1:
		invariant tree: treeShape() && treeValues() && validNodes()
		invariant walk: walkOk(walk, cv, cp)
		invariant cur: imp(cp != 0, walk[cp].prev == par(cp) && walk[par(cp)].visited)
		invariant done:
			assume cp == 0 && walk[0].visited && (!inner(0) || walk[zc(0)].visited && walk[oc(0)].visited)
			induct d; 0; len(nodes): allp(n, "Int", imp(reach(n) && dep(n) <= d, walk[n].visited), reach(n))
			show allp(n, "Int", imp(reach(n), walk[n].visited), reach(n))
		invariant pos: leaves(pleaf, walk, true)
		invariant neg: leaves(nleaf, walk, false)
	loop 0:
		invariant sem: all(k, 0, index, toldC(c, pleaf[k]))
	loop 1:
		invariant sem: all(l, 0, index, ex(f, 0, dim, c.Val[f] != 0 && p.Val[f] != 0 && nleaf[l].Val[f] != 0 && p.Val[f] != nleaf[l].Val[f]))
	ensures[C17] refused: imp(arg0 == nil || len(c.Val) != dim || len(nodes) == 0 || !validNodes(), ret1 != nil)
	ensures[C17] noerr:
		use inhabited
		show imp(arg0 != nil && len(c.Val) == dim && len(nodes) > 0 && validNodes(), ret1 == nil)
	ensures[C07] sem:
		assume ret1 == nil
		have allv(a, "Asg", iff(holds(a, ret0.sClauses), allApart(c.Val)))
		use determinants; c.Val
		show allv(a, "Asg", iff(holds(a, ret0.sClauses), determinant(c.Val)))
	ensures[C07,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C07,C19] free: imp(ret1 == nil, free(ret0))

// the instance is defined on a feature that tells two leaves of the lists apart
fn told(a, x, p, n) = ex(f, 0, dim, p.Val[f] != 0 && n.Val[f] != 0 && p.Val[f] != n.Val[f] && !val(a, id(x, f, 0)))
fn toldAll(a, x, p) = all(n, 0, len(nodes), imp(leaf(n) && !nodes[n].Value, ex(f, 0, dim, p.Val[f] != 0 && pv(n, f) != 0 && p.Val[f] != pv(n, f) && !val(a, id(x, f, 0)))))
fn allTold(a, x) = all(m, 0, len(nodes), all(n, 0, len(nodes), imp(leaf(m) && leaf(n) && nodes[m].Value && !nodes[n].Value, ex(f, 0, dim, pv(m, f) != 0 && pv(n, f) != 0 && pv(m, f) != pv(n, f) && !val(a, id(x, f, 0))))))

contract (query/extensions/dfs.Var).Encoding
	props C07 C17
	paths
	let x = svar(recv.I)
	requires tree: tree()
	loop query/extensions/dfs.leafsAsConsts 1:
		invariant tree: treeShape() && treeValues() && validNodes()
		invariant walk: walkOk(walk, cv, cp)
		invariant cur: imp(cp != 0, walk[cp].prev == par(cp) && walk[par(cp)].visited)
		invariant done:
			assume cp == 0 && walk[0].visited && (!inner(0) || walk[zc(0)].visited && walk[oc(0)].visited)
			induct d; 0; len(nodes): allp(n, "Int", imp(reach(n) && dep(n) <= d, walk[n].visited), reach(n))
			show allp(n, "Int", imp(reach(n), walk[n].visited), reach(n))
		invariant pos: leaves(pleaf, walk, true)
		invariant neg: leaves(nleaf, walk, false)
	loop 0:
		invariant bounded: topv >= pre(topv) && bnd(topv, clauses)
		invariant sem: allv(a, "Asg", iff(holds(a, clauses), all(k, 0, index, toldAll(a, x, pleaf[k]))))
	loop 1:
		invariant bounded: topv >= pre(topv) && bnd(topv, clauses)
		invariant sem: allv(a, "Asg", iff(holds(a, clauses), pre(holds(a, clauses)) && all(l, 0, index, told(a, x, p, nleaf[l]))))
	ensures[C17] refused: imp(arg0 == nil || len(nodes) == 0 || !validNodes(), ret1 != nil)
	ensures[C17] noerr:
		use inhabited
		show imp(arg0 != nil && len(nodes) > 0 && validNodes(), ret1 == nil)
	ensures[C07] sem:
		assume ret1 == nil
		fix a Asg
		assume wf(a, x)
		list c; dim; f: vv(a, x, f)
		have imp(holds(a, ret0.sClauses), allTold(a, x))
		have imp(allTold(a, x), holds(a, ret0.sClauses))
		use determinants; c
		have iff(allTold(a, x), allApart(c))
		have imp(determinant(c), vDeterminant(a, x))
		have imp(vDeterminant(a, x), determinant(c))
		show iff(holds(a, ret0.sClauses), vDeterminant(a, x))
	ensures[C07,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C07,C19] free: imp(ret1 == nil, free(ret0))
