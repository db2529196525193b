// C02: level comparison. The auxiliary variable (gen(v), i, j) means: exactly
// j of the features 0..i of v are undefined.

fn vbot(a, v, i) = ite(val(a, id(v,i,0)), 1, 0)
fn vbots(a, v, n) = sum(k, 0, n, vbot(a, v, k))
fn cbots(c, n) = sum(k, 0, n, ite(c.Val[k] == 0, 1, 0))
fn isCount(a, v, w) = all(i, 0, dim, all(j, 0, dim+1, iff(val(a,id(w,i,j)), vbots(a,v,i+1) == j)))

contract (query/predicates/lel.ConstConst).Encoding
	props C02 C17
	let c = sconst(recv.I1)
	let d = sconst(recv.I2)
	requires feats: feats(c) && feats(d)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || len(c.Val) != dim || len(d.Val) != dim)
	ensures[C02] sem: imp(ret1 == nil, allv(a, "Asg", iff(holds(a, ret0.sClauses), cbots(c, dim) >= cbots(d, dim))))
	ensures[C02,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C02,C19] free: imp(ret1 == nil, free(ret0))

contract (query/predicates/lel.ConstVar).Encoding
	props C02 C17
	let c = sconst(recv.I1)
	let y = svar(recv.I2)
	let w = call(recv.CountVarGen, y)
	requires feats: feats(c)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.CountVarGen == nil || len(c.Val) != dim)
	ensures[C02] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		induct i; 0; dim-1: all(j, 0, dim+1, iff(val(a,id(w,i,j)), vbots(a,y,i+1) == j))
		show iff(holds(a, ret0.sClauses), cbots(c, dim) >= vbots(a, y, dim))
	ensures[C02] complete: imp(ret1 == nil, allv(a, "Asg", imp(isCount(a, y, w), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && role(w, 1, y)
		fix a Asg
		assume canon(a)
		fix nw Str
		assume nw == w
		induct n; 0; dim: vbots(a, y, n) == vbots(a, roleX(nw), n)
		have isCount(a, y, w)
		show holds(a, ret0.cClauses)
	ensures[C02,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/predicates/lel.VarConst).Encoding
	props C02 C17
	let x = svar(recv.I1)
	let d = sconst(recv.I2)
	let w = call(recv.CountVarGen, x)
	requires feats: feats(d)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.CountVarGen == nil || len(d.Val) != dim)
	ensures[C02] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		induct i; 0; dim-1: all(j, 0, dim+1, iff(val(a,id(w,i,j)), vbots(a,x,i+1) == j))
		show iff(holds(a, ret0.sClauses), vbots(a, x, dim) >= cbots(d, dim))
	ensures[C02] complete: imp(ret1 == nil, allv(a, "Asg", imp(isCount(a, x, w), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && role(w, 1, x)
		fix a Asg
		assume canon(a)
		fix nw Str
		assume nw == w
		induct n; 0; dim: vbots(a, x, n) == vbots(a, roleX(nw), n)
		have isCount(a, x, w)
		show holds(a, ret0.cClauses)
	ensures[C02,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/predicates/lel.VarVar).Encoding
	props C02 C17
	let x = svar(recv.I1)
	let y = svar(recv.I2)
	let w1 = call(recv.CountVarGen, x)
	let w2 = call(recv.CountVarGen, y)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.CountVarGen == nil)
	ensures[C02] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		induct i; 0; dim-1: all(j, 0, dim+1, iff(val(a,id(w1,i,j)), vbots(a,x,i+1) == j))
		induct i; 0; dim-1: all(j, 0, dim+1, iff(val(a,id(w2,i,j)), vbots(a,y,i+1) == j))
		have val(a, id(w1, dim-1, vbots(a, x, dim))) && val(a, id(w2, dim-1, vbots(a, y, dim)))
		show iff(holds(a, ret0.sClauses), vbots(a, x, dim) >= vbots(a, y, dim))
	ensures[C02] complete: imp(ret1 == nil, allv(a, "Asg", imp(isCount(a, x, w1) && isCount(a, y, w2), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && role(w1, 1, x) && role(w2, 1, y)
		fix a Asg
		assume canon(a)
		fix nw1 Str
		assume nw1 == w1
		induct n; 0; dim: vbots(a, x, n) == vbots(a, roleX(nw1), n)
		have isCount(a, x, w1)
		fix nw2 Str
		assume nw2 == w2
		induct n; 0; dim: vbots(a, y, n) == vbots(a, roleX(nw2), n)
		have isCount(a, y, w2)
		show holds(a, ret0.cClauses)
	ensures[C02,C08] bounded: imp(ret1 == nil, bounded(ret0))
