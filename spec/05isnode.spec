// C05: the nodes of the tree.

// the instance with the values c(f) is the partial instance of node n
fn cIs(c, n) = all(f, 0, dim, c.Val[f] == pv(n, f))
fn vIs(a, x, n) = all(f, 0, dim, vv(a, x, f) == pv(n, f))
// the instance takes the way to n
fn cOn(c, n) = all(f, 0, dim, imp(pv(n, f) != 0, c.Val[f] == pv(n, f)))
fn vOn(a, x, n) = all(f, 0, dim, imp(pv(n, f) != 0, vv(a, x, f) == pv(n, f)))

contract (query/predicates/isnode.Const).Encoding
	props C05 C17
	let c = sconst(recv.I)
	requires feats: feats(c)
	requires valid: validNodes()
	requires tree: tree()
	loop 0:
		invariant tree: treeShape() && treeValues()
		invariant len: len(visited) == dim
		invariant way:
			use rooted
			use monotone
			use descend
			show ex(m, 0, len(nodes), reach(m) && node.ZChild == zc(m) && node.OChild == oc(m) && node.Feat == ft(m) && cOn(c, m) &&
				all(f, 0, dim, 0 <= visited[f] && visited[f] <= 1 && iff(visited[f] == 1, c.Val[f] == 0 || pv(m, f) != 0)) &&
				allp(n, "Int", imp(reach(n) && cIs(c, n), anc(m, n)), reach(n)))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || len(c.Val) != dim || len(nodes) == 0)
	ensures[C05] sem:
		assume ret1 == nil
		use monotone
		use descend
		show allv(a, "Asg", iff(holds(a, ret0.sClauses), ex(n, 0, len(nodes), reach(n) && cIs(c, n))))
	ensures[C05,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C05,C19] free: imp(ret1 == nil, free(ret0))

// the auxiliary variable (w, 1, n) means: the instance takes the way to n
fn rch(a, w, n) = val(a, id(w, 1, n))
fn isReach(a, x, w) = all(n, 0, len(nodes), iff(rch(a, w, n), vOn(a, x, n)))

// the way the instance takes ends at n
fn last(a, w, n) = reach(n) && rch(a, w, n) && !(inner(n) && (rch(a, w, zc(n)) || rch(a, w, oc(n))))

contract (query/predicates/isnode.Var).Encoding
	props C05 C17
	let x = svar(recv.I)
	let w = call(recv.ReachNodeVarGen, x)
	requires valid: validNodes()
	requires tree: tree() && imp(len(nodes) > 0, allNodes())
	loop 1:
		invariant len: len(fcl) == dim
		invariant cls: allv(a, "Asg", all(f, 0, dim, iff(holdsc(a, fcl[f]), val(a, id(x, f, 0)) || ex(n, 0, index, inner(n) && ft(n) == f && rch(a, w, n)))))
		invariant bounded: topv >= pre(topv) && all(f, 0, dim, bndc(topv, fcl[f]))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.ReachNodeVarGen == nil || len(nodes) == 0)
	ensures[C05] sem:
		assume ret1 == nil
		fix a Asg
		assume wf(a, x) && holds(a, ret0.cClauses)
		induct d; 0; len(nodes): allp(n, "Int", imp(reach(n) && dep(n) <= d, iff(rch(a, w, n), vOn(a, x, n))), reach(n))
		have allp(n, "Int", imp(reach(n), iff(rch(a, w, n), vOn(a, x, n))), reach(n))
		induct d; 0; len(nodes): ex(n, 0, len(nodes), reach(n) && rch(a, w, n) && dep(n) == d) || ex(n, 0, len(nodes), last(a, w, n))
		take m Int: 0 <= m && m < len(nodes) && last(a, w, m)
		use rooted
		use monotone
		use descend
		have allp(n, "Int", imp(anc(n, m), reach(n) && rch(a, w, n)), anc(n, m))
		have allp(n, "Int", imp(reach(n) && n != 0 && rch(a, w, n), rch(a, w, par(n)) && vv(a, x, ft(par(n))) == pv(n, ft(par(n))) && pv(n, ft(par(n))) == ite(n == zc(par(n)), 1, 2)), par(n))
		have allp(n, "Int", imp(reach(n) && inner(n), !rch(a, w, zc(n)) || !rch(a, w, oc(n))), zc(n))
		induct d; 0; len(nodes): allp(n, "Int", imp(reach(n) && dep(n) <= d && rch(a, w, n), anc(n, m)), reach(n))
		have allp(n, "Int", imp(reach(n) && rch(a, w, n) && inner(n) && vv(a, x, ft(n)) != 0, n != m), reach(n))
		have allp(n, "Int", imp(reach(n) && rch(a, w, n) && inner(n) && vv(a, x, ft(n)) != 0, pv(m, ft(n)) != 0), reach(n))
		use decided
		have iff(holds(a, ret0.sClauses), all(f, 0, dim, vv(a, x, f) == 0 || ex(n, 0, len(nodes), inner(n) && ft(n) == f && rch(a, w, n))))
		have all(f, 0, dim, imp(pv(m, f) != 0, vv(a, x, f) == pv(m, f)))
		have all(f, 0, dim, imp(vv(a, x, f) != 0 && ex(n, 0, len(nodes), inner(n) && ft(n) == f && rch(a, w, n)), pv(m, f) != 0))
		have imp(all(f, 0, dim, vv(a, x, f) == 0 || ex(n, 0, len(nodes), inner(n) && ft(n) == f && rch(a, w, n))), vIs(a, x, m))
		show iff(holds(a, ret0.sClauses), ex(n, 0, len(nodes), reach(n) && vIs(a, x, n)))
	ensures[C05] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x) && isReach(a, x, w), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && role(w, 8, x)
		fix a Asg
		assume canon(a) && wf(a, x)
		have isReach(a, x, w)
		show holds(a, ret0.cClauses)
	ensures[C05,C08] bounded: imp(ret1 == nil, bounded(ret0))
