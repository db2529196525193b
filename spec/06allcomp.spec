// C06: all completions of an instance are classified alike.

fn leaf(n) = reach(n) && !inner(n)
// a full instance, the leaf it is classified by, and its class
fn full(e) = len(e) == dim && all(f, 0, dim, e[f] == 1 || e[f] == 2)
fn takes(e, n) = all(f, 0, dim, imp(pv(n, f) != 0, e[f] == pv(n, f)))
fn classIs(e, v) = all(n, 0, len(nodes), imp(leaf(n) && takes(e, n), iff(nodes[n].Value, v)))
fn extends(e, c) = all(f, 0, dim, imp(c[f] != 0, e[f] == c[f]))
// every completion of c is classified v
fn allComp(c, v) = allp(e, "Feats", imp(full(e) && extends(e, c), classIs(e, v)), len(e))
// some completion of the instance takes the way to n
fn meets(c, n) = all(f, 0, dim, pv(n, f) == 0 || c[f] == 0 || c[f] == pv(n, f))
fn cMeets(c, n) = meets(c.Val, n)
fn isNode(v, n) = v.ZChild == zc(n) && v.OChild == oc(n) && v.Feat == ft(n) && iff(v.Value, nodes[n].Value)
// the way to m leads through the node v
fn cov(v, m) = ite(v.ZChild >= 0 && v.OChild >= 0, anc(par(v.ZChild), m), isNode(v, m))

lemma values
	props C05 C06 C07 C08 C17 C19
	requires tree: treeShape() && treeValues()
	ensures range:
		induct d; 0; len(nodes): allp(n, "Int", f, "Int", imp(reach(n) && dep(n) <= d, 0 <= pv(n, f) && pv(n, f) <= 2), pv(n, f))
		show allp(n, "Int", f, "Int", imp(reach(n), 0 <= pv(n, f) && pv(n, f) <= 2), pv(n, f))
// every full instance is classified by exactly one leaf
lemma classified
	props C05 C06 C07 C08 C17 C19
	requires tree: treeShape() && treeValues() && validNodes()
	ensures one:
		use rooted
		use monotone
		use descend
		fix e Feats on len(e)
		assume full(e)
		induct d; 0; len(nodes): ex(n, 0, len(nodes), reach(n) && takes(e, n) && dep(n) == d) || ex(n, 0, len(nodes), leaf(n) && takes(e, n))
		take m Int: 0 <= m && m < len(nodes) && leaf(m) && takes(e, m)
		have allp(n, "Int", imp(reach(n) && n != 0 && takes(e, n), takes(e, par(n)) && e[ft(par(n))] == pv(n, ft(par(n))) && pv(n, ft(par(n))) == ite(n == zc(par(n)), 1, 2)), par(n))
		have allp(n, "Int", imp(anc(n, m), reach(n) && takes(e, n)), anc(n, m))
		have allp(n, "Int", imp(reach(n) && inner(n), !takes(e, zc(n)) || !takes(e, oc(n))), zc(n))
		induct d; 0; len(nodes): allp(n, "Int", imp(reach(n) && dep(n) <= d && takes(e, n), anc(n, m)), reach(n))
		show leaf(m) && takes(e, m)
		show allp(n, "Int", imp(leaf(n) && takes(e, n), n == m), reach(n))
// the completions of an instance take the ways to the leaves it meets
lemma completions1
	props C05 C06 C07 C08 C17 C19
	param c Feats
	requires tree: treeShape() && treeValues()
	requires feats: len(c) == dim && all(f, 0, dim, 0 <= c[f] && c[f] <= 2)
	ensures meet:
		use values
		fix n Int on reach(n)
		assume leaf(n) && meets(c, n)
		list e; dim; f: ite(pv(n, f) != 0, pv(n, f), ite(c[f] != 0, c[f], 1))
		show full(e) && extends(e, c) && takes(e, n)
// ... so all completions are classified alike exactly when these leaves are
lemma completions
	props C05 C06 C07 C08 C17 C19
	param c Feats
	param v Bool
	requires tree: treeShape() && treeValues()
	requires feats: len(c) == dim && all(f, 0, dim, 0 <= c[f] && c[f] <= 2)
	ensures same:
		use completions1; c
		show iff(allComp(c, v), allp(n, "Int", imp(leaf(n) && meets(c, n), iff(nodes[n].Value, v)), reach(n)))

contract (query/extensions/allcomp.Const).Encoding
	props C06 C17
	let c = sconst(recv.I)
	requires feats: feats(c)
	requires valid: validNodes()
	requires tree: tree()
	loop 0:
		invariant tree: treeShape() && treeValues()
		invariant stack: all(k, 0, len(nstack), ex(s, 0, len(nodes), reach(s) && isNode(nstack[k], s) && cMeets(c, s)))
		invariant seen: all(k, 0, len(nstack), imp(nstack[k].ZChild >= 0 && nstack[k].OChild >= 0, !has(nvisited, nstack[k].ZChild) && !has(nvisited, nstack[k].OChild) && (par(nstack[k].ZChild) == 0 || has(nvisited, par(nstack[k].ZChild)))))
		invariant apart: all(k, 0, len(nstack), all(l, 0, k, imp(nstack[k].ZChild >= 0 && nstack[k].OChild >= 0 && nstack[l].ZChild >= 0 && nstack[l].OChild >= 0, nstack[k].ZChild != nstack[l].ZChild)))
		invariant visited: allp(v, "Int", imp(has(nvisited, v), reach(v) && v != 0 && (par(v) == 0 || has(nvisited, par(v)))), has(nvisited, v))
		invariant covered:
			use monotone
			use descend
			use rooted
			fix m Int on reach(m)
			assume leaf(m) && cMeets(c, m) && !iff(nodes[m].Value, recv.LeafValue)
			have allp(s, "Int", imp(reach(s) && inner(s) && anc(zc(s), m), pv(m, ft(s)) == 1), anc(zc(s), m))
			have allp(s, "Int", imp(reach(s) && inner(s) && anc(oc(s), m), pv(m, ft(s)) == 2), anc(oc(s), m))
			have allp(s, "Int", imp(reach(s) && inner(s) && anc(s, m), c.Val[ft(s)] != 2 && anc(zc(s), m) || c.Val[ft(s)] != 1 && anc(oc(s), m)), anc(s, m))
			have len(nstack) >= 1 && cov(nstack[len(nstack) - 1], m) || len(nstack) >= 2 && cov(nstack[len(nstack) - 2], m) || ex(k, 0, len(nstack) - 1, cov(nstack[k], m))
			show ex(k, 0, len(nstack), cov(nstack[k], m), len(nstack) - 1, len(nstack) - 2)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || len(c.Val) != dim || len(nodes) == 0)
	ensures[C06] sem:
		assume ret1 == nil
		use completions; c.Val; recv.LeafValue
		show allv(a, "Asg", iff(holds(a, ret0.sClauses), allComp(c.Val, recv.LeafValue)))
	ensures[C06,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C06,C19] free: imp(ret1 == nil, free(ret0))

// the auxiliary variable (w, 0, n) means: some completion takes the way to n
fn rch0(a, w, n) = val(a, id(w, 0, n))
fn vMeets(a, x, n) = all(f, 0, dim, pv(n, f) == 0 || vv(a, x, f) == 0 || vv(a, x, f) == pv(n, f))
fn isReach0(a, x, w) = all(n, 0, len(nodes), iff(rch0(a, w, n), vMeets(a, x, n)))
fn vExtends(e, a, x) = all(f, 0, dim, imp(vv(a, x, f) != 0, e[f] == vv(a, x, f)))
fn vAllComp(a, x, v) = allp(e, "Feats", imp(full(e) && vExtends(e, a, x), classIs(e, v)), len(e))

contract (query/extensions/allcomp.Var).Encoding
	props C06 C17
	let x = svar(recv.I)
	let w = call(recv.ReachNodeVarGen, x)
	requires valid: validNodes()
	requires tree: tree() && imp(len(nodes) > 0, allNodes())
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.ReachNodeVarGen == nil || len(nodes) == 0)
	ensures[C06] sem:
		assume ret1 == nil
		fix a Asg
		assume wf(a, x) && holds(a, ret0.cClauses)
		use values
		induct d; 0; len(nodes): allp(n, "Int", imp(reach(n) && dep(n) <= d, iff(rch0(a, w, n), vMeets(a, x, n))), reach(n))
		list c; dim; f: vv(a, x, f)
		use completions; c; recv.LeafValue
		have iff(holds(a, ret0.sClauses), all(n, 0, len(nodes), imp(leaf(n) && rch0(a, w, n), iff(nodes[n].Value, recv.LeafValue))))
		have iff(holds(a, ret0.sClauses), allComp(c, recv.LeafValue))
		show iff(holds(a, ret0.sClauses), vAllComp(a, x, recv.LeafValue))
	ensures[C06] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x) && isReach0(a, x, w), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && role(w, 8, x)
		fix a Asg
		assume canon(a) && wf(a, x)
		have isReach0(a, x, w)
		show holds(a, ret0.cClauses)
	ensures[C06,C08] bounded: imp(ret1 == nil, bounded(ret0))
