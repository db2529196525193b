// C03: Hamming distance comparison.
//
// The auxiliary variable (dist(v,w), i, j) means: v and w differ in exactly j of
// the features 0..i.  The auxiliary variable (eq(v,w), i, 0) means: v and w agree
// on feature i.  w may be a constant, rendered as a string.

fn cdiff(c, d, n) = sum(k, 0, n, ite(c.Val[k] == d.Val[k], 0, 1))
fn vcdiff(a, v, c, n) = sum(k, 0, n, ite(vv(a,v,k) == c.Val[k], 0, 1))
fn vvdiff(a, v, w, n) = sum(k, 0, n, ite(vv(a,v,k) == vv(a,w,k), 0, 1))
fn fullC(c) = all(k, 0, len(c.Val), c.Val[k] != 0)
fn fullV(a, v) = all(k, 0, dim, vv(a,v,k) != 0)
fn countVC(a, v, c, t, i) = all(j, 0, dim+1, iff(val(a,id(t,i,j)), vcdiff(a,v,c,i+1) == j))
fn countVV(a, v, w, t, i) = all(j, 0, dim+1, iff(val(a,id(t,i,j)), vvdiff(a,v,w,i+1) == j))
fn distVC(a, v, c, t) = all(i, 0, dim, countVC(a, v, c, t, i))
fn distVV(a, v, w, t, e) = all(i, 0, dim, countVV(a, v, w, t, i)) && all(i, 0, dim, iff(val(a,id(e,i,0)), vv(a,v,i) == vv(a,w,i)))

contract (query/extensions/leh.ConstConstConst).Encoding
	props C03 C17
	let x1 = sconst(recv.I1)
	let x2 = sconst(recv.I2)
	let x3 = sconst(recv.I3)
	requires feats: feats(x1) && feats(x2) && feats(x3)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || len(x1.Val) != dim || len(x2.Val) != dim || len(x3.Val) != dim)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		show iff(holds(a, ret0.sClauses), fullC(x1) && fullC(x2) && fullC(x3) && cdiff(x1, x2, dim) <= cdiff(x1, x3, dim))
	ensures[C03,C19] free: imp(ret1 == nil, free(ret0))
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/extensions/leh.ConstConstVar).Encoding
	props C03 C17
	let x1 = sconst(recv.I1)
	let x2 = sconst(recv.I2)
	let x3 = svar(recv.I3)
	requires feats: feats(x1) && feats(x2)
	let t2 = call(recv.HammingDistanceVarGen, x3, asStr(x1))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.HammingDistanceVarGen == nil || len(x1.Val) != dim || len(x2.Val) != dim)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses) && wf(a, x3)
		induct i; 0; dim-1: imp(cdiff(x1, x2, dim) != 0, countVC(a, x3, x1, t2, i))
		have imp(cdiff(x1, x2, dim) != 0, val(a, id(t2, dim-1, vcdiff(a, x3, x1, dim))))
		show iff(holds(a, ret0.sClauses), fullC(x1) && fullC(x2) && fullV(a, x3) && cdiff(x1, x2, dim) <= vcdiff(a, x3, x1, dim))
	ensures[C03] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x3) && distVC(a, x3, x1, t2), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && roleC(t2, 2, x3, asStr(x1)) && reads(asStr(x1), x1)
		fix a Asg
		assume canon(a) && wf(a, x3)
		fix nt2 Str
		assume nt2 == t2
		induct n; 0; dim: vcdiff(a, x3, x1, n) == sdiff(a, roleX(nt2), roleY(nt2), n)
		have distVC(a, x3, x1, t2)
		show holds(a, ret0.cClauses)
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/extensions/leh.ConstVarConst).Encoding
	props C03 C17
	let x1 = sconst(recv.I1)
	let x2 = svar(recv.I2)
	let x3 = sconst(recv.I3)
	requires feats: feats(x1) && feats(x3)
	let t1 = call(recv.HammingDistanceVarGen, x2, asStr(x1))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.HammingDistanceVarGen == nil || len(x1.Val) != dim || len(x3.Val) != dim)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses) && wf(a, x2)
		induct i; 0; dim-1: imp(cdiff(x1, x3, dim) != dim, countVC(a, x2, x1, t1, i))
		have imp(cdiff(x1, x3, dim) != dim, val(a, id(t1, dim-1, vcdiff(a, x2, x1, dim))))
		show iff(holds(a, ret0.sClauses), fullC(x1) && fullC(x3) && fullV(a, x2) && vcdiff(a, x2, x1, dim) <= cdiff(x1, x3, dim))
	ensures[C03] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x2) && distVC(a, x2, x1, t1), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && roleC(t1, 2, x2, asStr(x1)) && reads(asStr(x1), x1)
		fix a Asg
		assume canon(a) && wf(a, x2)
		fix nt1 Str
		assume nt1 == t1
		induct n; 0; dim: vcdiff(a, x2, x1, n) == sdiff(a, roleX(nt1), roleY(nt1), n)
		have distVC(a, x2, x1, t1)
		show holds(a, ret0.cClauses)
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/extensions/leh.ConstVarVar).Encoding
	props C03 C17
	let x1 = sconst(recv.I1)
	let x2 = svar(recv.I2)
	let x3 = svar(recv.I3)
	requires feats: feats(x1)
	let t1 = call(recv.HammingDistanceVarGen, x2, asStr(x1))
	let t2 = call(recv.HammingDistanceVarGen, x3, asStr(x1))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.HammingDistanceVarGen == nil || len(x1.Val) != dim)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses) && wf(a, x2) && wf(a, x3)
		induct i; 0; dim-1: countVC(a, x2, x1, t1, i)
		have imp(true, val(a, id(t1, dim-1, vcdiff(a, x2, x1, dim))))
		induct i; 0; dim-1: countVC(a, x3, x1, t2, i)
		have imp(true, val(a, id(t2, dim-1, vcdiff(a, x3, x1, dim))))
		show iff(holds(a, ret0.sClauses), fullC(x1) && fullV(a, x2) && fullV(a, x3) && vcdiff(a, x2, x1, dim) <= vcdiff(a, x3, x1, dim))
	ensures[C03] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x2) && wf(a, x3) && distVC(a, x2, x1, t1) && distVC(a, x3, x1, t2), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && roleC(t1, 2, x2, asStr(x1)) && reads(asStr(x1), x1) && roleC(t2, 2, x3, asStr(x1)) && reads(asStr(x1), x1)
		fix a Asg
		assume canon(a) && wf(a, x2) && wf(a, x3)
		fix nt1 Str
		assume nt1 == t1
		induct n; 0; dim: vcdiff(a, x2, x1, n) == sdiff(a, roleX(nt1), roleY(nt1), n)
		have distVC(a, x2, x1, t1)
		fix nt2 Str
		assume nt2 == t2
		induct n; 0; dim: vcdiff(a, x3, x1, n) == sdiff(a, roleX(nt2), roleY(nt2), n)
		have distVC(a, x3, x1, t2)
		show holds(a, ret0.cClauses)
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/extensions/leh.VarConstConst).Encoding
	props C03 C17
	let x1 = svar(recv.I1)
	let x2 = sconst(recv.I2)
	let x3 = sconst(recv.I3)
	requires feats: feats(x2) && feats(x3)
	let t1 = call(recv.HammingDistanceVarGen, x1, asStr(x2))
	let t2 = call(recv.HammingDistanceVarGen, x1, asStr(x3))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.HammingDistanceVarGen == nil || len(x2.Val) != dim || len(x3.Val) != dim)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses) && wf(a, x1)
		induct i; 0; dim-1: countVC(a, x1, x2, t1, i)
		have imp(true, val(a, id(t1, dim-1, vcdiff(a, x1, x2, dim))))
		induct i; 0; dim-1: countVC(a, x1, x3, t2, i)
		have imp(true, val(a, id(t2, dim-1, vcdiff(a, x1, x3, dim))))
		show iff(holds(a, ret0.sClauses), fullC(x2) && fullC(x3) && fullV(a, x1) && vcdiff(a, x1, x2, dim) <= vcdiff(a, x1, x3, dim))
	ensures[C03] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x1) && distVC(a, x1, x2, t1) && distVC(a, x1, x3, t2), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && roleC(t1, 2, x1, asStr(x2)) && reads(asStr(x2), x2) && roleC(t2, 2, x1, asStr(x3)) && reads(asStr(x3), x3)
		fix a Asg
		assume canon(a) && wf(a, x1)
		fix nt1 Str
		assume nt1 == t1
		induct n; 0; dim: vcdiff(a, x1, x2, n) == sdiff(a, roleX(nt1), roleY(nt1), n)
		have distVC(a, x1, x2, t1)
		fix nt2 Str
		assume nt2 == t2
		induct n; 0; dim: vcdiff(a, x1, x3, n) == sdiff(a, roleX(nt2), roleY(nt2), n)
		have distVC(a, x1, x3, t2)
		show holds(a, ret0.cClauses)
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/extensions/leh.VarConstVar).Encoding
	props C03 C17
	let x1 = svar(recv.I1)
	let x2 = sconst(recv.I2)
	let x3 = svar(recv.I3)
	requires feats: feats(x2)
	let t1 = call(recv.HammingDistanceVarGen, x1, asStr(x2))
	let t2 = call(recv.HammingDistanceVarGen, x1, x3)
	let e2 = call(recv.EqualFeatureVarGen, x1, x3)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.HammingDistanceVarGen == nil || recv.EqualFeatureVarGen == nil || len(x2.Val) != dim)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses) && wf(a, x1) && wf(a, x3)
		induct i; 0; dim-1: countVC(a, x1, x2, t1, i)
		have imp(true, val(a, id(t1, dim-1, vcdiff(a, x1, x2, dim))))
		induct i; 0; dim-1: imp(fullV(a,x1) && fullV(a,x3), countVV(a, x1, x3, t2, i))
		have imp(fullV(a,x1) && fullV(a,x3), val(a, id(t2, dim-1, vvdiff(a, x1, x3, dim))))
		show iff(holds(a, ret0.sClauses), fullC(x2) && fullV(a, x1) && fullV(a, x3) && vcdiff(a, x1, x2, dim) <= vvdiff(a, x1, x3, dim))
	ensures[C03] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x1) && wf(a, x3) && distVC(a, x1, x2, t1) && distVV(a, x1, x3, t2, e2), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && roleC(t1, 2, x1, asStr(x2)) && reads(asStr(x2), x2) && role2(t2, 3, x1, x3) && role2(e2, 4, x1, x3)
		fix a Asg
		assume canon(a) && wf(a, x1) && wf(a, x3)
		fix nt1 Str
		assume nt1 == t1
		induct n; 0; dim: vcdiff(a, x1, x2, n) == sdiff(a, roleX(nt1), roleY(nt1), n)
		have distVC(a, x1, x2, t1)
		fix nt2 Str
		assume nt2 == t2
		induct n; 0; dim: vvdiff(a, x1, x3, n) == vvdiff(a, roleX(nt2), roleY(nt2), n)
		have distVV(a, x1, x3, t2, e2)
		show holds(a, ret0.cClauses)
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/extensions/leh.VarVarConst).Encoding
	props C03 C17
	let x1 = svar(recv.I1)
	let x2 = svar(recv.I2)
	let x3 = sconst(recv.I3)
	requires feats: feats(x3)
	let t1 = call(recv.HammingDistanceVarGen, x1, x2)
	let e1 = call(recv.EqualFeatureVarGen, x1, x2)
	let t2 = call(recv.HammingDistanceVarGen, x1, asStr(x3))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.HammingDistanceVarGen == nil || recv.EqualFeatureVarGen == nil || len(x3.Val) != dim)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses) && wf(a, x1) && wf(a, x2)
		induct i; 0; dim-1: imp(fullV(a,x1) && fullV(a,x2), countVV(a, x1, x2, t1, i))
		have imp(fullV(a,x1) && fullV(a,x2), val(a, id(t1, dim-1, vvdiff(a, x1, x2, dim))))
		induct i; 0; dim-1: countVC(a, x1, x3, t2, i)
		have imp(true, val(a, id(t2, dim-1, vcdiff(a, x1, x3, dim))))
		show iff(holds(a, ret0.sClauses), fullC(x3) && fullV(a, x1) && fullV(a, x2) && vvdiff(a, x1, x2, dim) <= vcdiff(a, x1, x3, dim))
	ensures[C03] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x1) && wf(a, x2) && distVV(a, x1, x2, t1, e1) && distVC(a, x1, x3, t2), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && role2(t1, 3, x1, x2) && role2(e1, 4, x1, x2) && roleC(t2, 2, x1, asStr(x3)) && reads(asStr(x3), x3)
		fix a Asg
		assume canon(a) && wf(a, x1) && wf(a, x2)
		fix nt1 Str
		assume nt1 == t1
		induct n; 0; dim: vvdiff(a, x1, x2, n) == vvdiff(a, roleX(nt1), roleY(nt1), n)
		have distVV(a, x1, x2, t1, e1)
		fix nt2 Str
		assume nt2 == t2
		induct n; 0; dim: vcdiff(a, x1, x3, n) == sdiff(a, roleX(nt2), roleY(nt2), n)
		have distVC(a, x1, x3, t2)
		show holds(a, ret0.cClauses)
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))

contract (query/extensions/leh.VarVarVar).Encoding
	props C03 C17
	let x1 = svar(recv.I1)
	let x2 = svar(recv.I2)
	let x3 = svar(recv.I3)
	let t1 = call(recv.HammingDistanceVarGen, x1, x2)
	let e1 = call(recv.EqualFeatureVarGen, x1, x2)
	let t2 = call(recv.HammingDistanceVarGen, x1, x3)
	let e2 = call(recv.EqualFeatureVarGen, x1, x3)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || recv.HammingDistanceVarGen == nil || recv.EqualFeatureVarGen == nil)
	ensures[C03] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses) && wf(a, x1) && wf(a, x2) && wf(a, x3)
		induct i; 0; dim-1: imp(fullV(a,x1) && fullV(a,x2), countVV(a, x1, x2, t1, i))
		have imp(fullV(a,x1) && fullV(a,x2), val(a, id(t1, dim-1, vvdiff(a, x1, x2, dim))))
		induct i; 0; dim-1: imp(fullV(a,x1) && fullV(a,x3), countVV(a, x1, x3, t2, i))
		have imp(fullV(a,x1) && fullV(a,x3), val(a, id(t2, dim-1, vvdiff(a, x1, x3, dim))))
		show iff(holds(a, ret0.sClauses), fullV(a, x1) && fullV(a, x2) && fullV(a, x3) && vvdiff(a, x1, x2, dim) <= vvdiff(a, x1, x3, dim))
	ensures[C03] complete: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x1) && wf(a, x2) && wf(a, x3) && distVV(a, x1, x2, t1, e1) && distVV(a, x1, x3, t2, e2), holds(a, ret0.cClauses))))
	ensures[C19] apart:
		assume ret1 == nil && role2(t1, 3, x1, x2) && role2(e1, 4, x1, x2) && role2(t2, 3, x1, x3) && role2(e2, 4, x1, x3)
		fix a Asg
		assume canon(a) && wf(a, x1) && wf(a, x2) && wf(a, x3)
		fix nt1 Str
		assume nt1 == t1
		induct n; 0; dim: vvdiff(a, x1, x2, n) == vvdiff(a, roleX(nt1), roleY(nt1), n)
		have distVV(a, x1, x2, t1, e1)
		fix nt2 Str
		assume nt2 == t2
		induct n; 0; dim: vvdiff(a, x1, x3, n) == vvdiff(a, roleX(nt2), roleY(nt2), n)
		have distVV(a, x1, x3, t2, e2)
		show holds(a, ret0.cClauses)
	ensures[C03,C08] bounded: imp(ret1 == nil, bounded(ret0))
