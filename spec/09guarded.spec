// C09: guarded quantification.

// what the operations of a context do to its scopes (proved for the basic context under C13)
fn withVar(s, x) = app("sigmaAddVar", "Obj", s, x)
fn withScope(s, x) = app("sigmaAddScope", "Obj", s, x)
fn withSet(s, k, v) = app("sigmaSet", "Obj", s, k, v)
fn popped(s) = app("sigmaPop", "Obj", s)
defn addVar: allp(s, "Obj", x, "Str", stack(withVar(s, x)) == stack(s), withVar(s, x))
defn addScope: allp(s, "Obj", x, "Str", rest(stack(withScope(s, x))) == stack(s) && height(stack(withScope(s, x))) == height(stack(s)) + 1, withScope(s, x))
defn setScope: allp(s, "Obj", k, "Int", v, "Ref", rest(stack(withSet(s, k, v))) == rest(stack(s)) && height(stack(withSet(s, k, v))) == height(stack(s)), withSet(s, k, v))
defn setFails: allp(s, "Obj", iff(app("setErr", "Err", s) != nil, height(stack(s)) <= 0), app("setErr", "Err", s))
defn popScope: allp(s, "Obj", imp(height(stack(s)) > 0, stack(popped(s)) == rest(stack(s))), popped(s))
defn popFails: allp(s, "Obj", iff(app("popErr", "Err", s) != nil, height(stack(s)) <= 0), app("popErr", "Err", s))
defn height: allp(k, "Obj", height(k) >= 0, height(k))

// the choices of one execution of the loop over the nodes: the node of the k-th
// instantiation, the values given to the constant and the state before it
ufun nodeAt(Int) Int
ufun valAt(Int) Feats
ufun stAt(Int) Obj
ufun rounds() Int
// the state the body is encoded in the k-th time
fn sk(k) = withSet(stAt(k), k, ref(valAt(k)))

fn seen(x, n) = x.walk[n].visited
// the iterator stands at a node of the tree, t is its partial instance, and the
// nodes seen are closed: the parents, and the children of all but the ancestors of cp
fn itOk(x) = len(x.walk) == len(nodes) && len(x.t) == dim && reach(x.cp) &&
	all(f, 0, dim, x.t[f] == pv(x.cp, f)) &&
	all(n, 0, len(nodes), imp(seen(x, n), reach(n) && imp(n != 0, x.walk[n].prev == par(n) && seen(x, par(n))))) &&
	all(n, 0, len(nodes), imp(seen(x, n) && inner(n) && !anc(n, x.cp), seen(x, zc(n)) && seen(x, oc(n))))

contract (query/logop.ForAllGuarded).Encoding
	props C09 C17
	let q = recv.Q
	let s = sigma
	let t0 = topv
	let s0 = withScope(sigma, recv.I.ID)
	let ok = arg0 != nil && recv.Q != nil && len(nodes) > 0 && validNodes()
	requires tree: tree()
	loop (query/logop.ForAllGuarded).buildEncoding 0:
		invariant tree: treeShape() && treeValues()
		invariant index: 0 <= i && iff(i == 0, !seen(iter, iter.cp)) && imp(i == 0, iter.cp == 0)
		invariant walk: itOk(iter)
		invariant seq: all(k, 0, i, reach(nodeAt(k)) && seen(iter, nodeAt(k)))
		invariant once: all(k, 0, i, all(l, 0, k, nodeAt(k) != nodeAt(l)))
		invariant cover: all(n, 0, len(nodes), imp(seen(iter, n), ex(k, 0, i, nodeAt(k) == n)))
		invariant vals: all(k, 0, i, len(valAt(k)) == dim && all(f, 0, dim, valAt(k)[f] == pv(nodeAt(k), f)))
		invariant states: imp(i > 0, stAt(0) == s0 && sigma == after(q, sk(i - 1))) && imp(i == 0, sigma == s0) && all(k, 1, i, stAt(k) == after(q, sk(k - 1)))
		invariant noerr: err == nil && all(k, 0, i, !qerr(q, sk(k)))
		invariant nest: rest(stack(sigma)) == stack(s) && height(stack(sigma)) == height(stack(s)) + 1
		invariant bounded: t0 <= topv && bnd(topv, sClauses) && bnd(topv, cClauses)
		invariant sem: allv(a, "Asg", imp(all(k, 0, i, fr(q, sk(k), a)) && holds(a, cClauses), iff(holds(a, sClauses), all(k, 0, i, den(q, sk(k), a)))))
		invariant extend:
			fix a Asg on mark(a)
			have mark(a)
			assume can(a) && all(k, 0, i, inst(q, sk(k), a))
			take b1 Asg on holds(b1, hdr(cClauses)): completes(a, b1, t0, hdr(cClauses))
			have mark(b1)
			take b Asg on holds(b, cClauses): completes(a, b, t0, cClauses)
			show completes(a, b, t0, cClauses)
		resolve i: nodeAt(i - 1) = iter.cp; valAt(i - 1) = ref(*iter.t); stAt(i - 1) = hdr(sigma)
		final rounds = i; nodeAt(i) = iter.cp; valAt(i) = ref(*iter.t); stAt(i) = hdr(sigma)
	loop (*query/logop.nodeAsValuesIter).Next 0:
		invariant walk: itOk(i)
		invariant cur: imp(i.cp != 0, i.walk[i.cp].prev == par(i.cp) && seen(i, par(i.cp)))
		invariant same: all(n, 0, len(nodes), iff(seen(i, n), pre(seen(i, n))))
		invariant done:
			assume i.cp == 0 && seen(i, 0) && (!inner(0) || seen(i, zc(0)) && seen(i, oc(0)))
			fix n Int
			assume reach(n)
			induct d; 0; dep(n): allp(x, "Int", imp(reach(x) && dep(x) == d, seen(i, x)), reach(x))
			show seen(i, n)
		decreases ite(seen(i, i.cp), 1, 0); dep(i.cp)
	ensures[C09] nest: stack(sigma) == stack(s)
	ensures[C09,C17] refused: imp(!ok, ret1 != nil)
	ensures[C09] blame: imp(ok && !qerr(q, sk(rounds)), ret1 == nil)
	ensures[C09] noerr: imp(ret1 == nil, all(k, 0, rounds, !qerr(q, sk(k))))
	ensures[C09] nodes: imp(ok, 0 <= rounds && all(k, 0, rounds, reach(nodeAt(k)) && all(l, 0, k, nodeAt(k) != nodeAt(l))))
	ensures[C09] every: imp(ret1 == nil, allp(n, "Int", imp(reach(n), ex(k, 0, rounds, nodeAt(k) == n)), reach(n)))
	ensures[C09] values: imp(ok, all(k, 0, rounds, len(valAt(k)) == dim && all(f, 0, dim, valAt(k)[f] == pv(nodeAt(k), f))))
	ensures[C09] states: imp(ok, stAt(0) == s0 && all(k, 1, rounds, stAt(k) == after(q, sk(k - 1))))
	ensures[C09] scope: imp(ret1 == nil, sigma == popped(after(q, sk(rounds - 1))))
	ensures[C09,C08,C19] grows: topv >= old(topv)
	ensures[C09,C08,C19] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C09] sem: imp(ret1 == nil, allv(a, "Asg", imp(all(k, 0, rounds, fr(q, sk(k), a)) && holds(a, ret0.cClauses), iff(holds(a, ret0.sClauses), all(k, 0, rounds, den(q, sk(k), a))))))
	ensures[C09,C19] extend:
		assume ret1 == nil
		fix a Asg on mark(a)
		have mark(a)
		assume can(a) && all(k, 0, rounds, inst(q, sk(k), a))
		take b Asg: completes(a, b, old(topv), ret0.cClauses)
		show completes(a, b, old(topv), ret0.cClauses)
