// C04: preference rank comparison. The auxiliary variable (gen(p,v,w), 0, i)
// means: the comparison restricted to the listed features from position i on
// favours v or is a tie.

fn prefStr(p) = catfor(i, 0, len(p), itoa(p[i]) + ",")
fn validPref(p, d) = all(i, 0, len(p), 0 <= p[i] && p[i] < d) && all(i, 0, len(p), all(j, 0, i, p[i] != p[j]))

fn cb(c, f) = c.Val[f] == 0
fn vb(a, v, f) = val(a, id(v, f, 0))

contract query/extensions/hepr.validatePref
	modular
	props C04 C17
	requires dim: arg1 >= 0
	ensures[C04,C17] err: iff(ret0 != nil, !validPref(arg0, arg1))

contract query/extensions/hepr.prefVar
	modular
	props C04 C17 C19
	ensures[C04,C19] str: ret0 == prefStr(arg0)

// the first listed feature from m on where exactly one side is undefined has the second one undefined
fn prefConstConst(a, p, x1, x2, m) = all(k, m, len(p), imp(all(l, m, k, iff(cb(x1, p[l]), cb(x2, p[l]))), !(cb(x1, p[k]) && !cb(x2, p[k]))))

contract (query/extensions/hepr.ConstConst).Encoding
	props C04 C17
	let p = recv.Preference
	let x1 = sconst(recv.I1)
	let x2 = sconst(recv.I2)
	requires feats: feats(x1) && feats(x2)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || !validPref(p, dim) || len(x1.Val) != dim || len(x2.Val) != dim)
	ensures[C04] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		show iff(holds(a, ret0.sClauses), prefConstConst(a, p, x1, x2, 0))
	ensures[C04,C19] free: imp(ret1 == nil, free(ret0))
	ensures[C04,C08] bounded: imp(ret1 == nil, bounded(ret0))

// the first listed feature from m on where exactly one side is undefined has the second one undefined
fn prefConstVar(a, p, x1, x2, m) = all(k, m, len(p), imp(all(l, m, k, iff(cb(x1, p[l]), vb(a, x2, p[l]))), !(cb(x1, p[k]) && !vb(a, x2, p[k]))))
fn rankConstVar(a, p, x1, x2, w) = all(i, 0, len(p), iff(val(a, id(w, 0, i)), prefConstVar(a, p, x1, x2, i)))

contract (query/extensions/hepr.ConstVar).Encoding
	props C04 C17
	let p = recv.Preference
	let x1 = sconst(recv.I1)
	let x2 = svar(recv.I2)
	requires feats: feats(x1)
	let w = call(recv.FeaturePreferenceRankVarGen, prefStr(p), asStr(x1), x2)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || !validPref(p, dim) || recv.FeaturePreferenceRankVarGen == nil || len(x1.Val) != dim)
	ensures[C04] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		inductdown i; 0; len(p)-1: iff(val(a, id(w, 0, i)), prefConstVar(a, p, x1, x2, i))
		show iff(holds(a, ret0.sClauses), prefConstVar(a, p, x1, x2, 0))
	ensures[C04] complete:
		assume ret1 == nil
		fix a Asg
		assume rankConstVar(a, p, x1, x2, w)
		show holds(a, ret0.cClauses)
	ensures[C19] apart:
		assume ret1 == nil && roleOf(w) == 5 && roleX(w) == asStr(x1) && roleY(w) == x2 && reads(asStr(x1), x1) && roleP(w) == prefStr(p) && readsP(prefStr(p), p)
		fix a Asg
		assume canon(a)
		have rankConstVar(a, p, x1, x2, w)
		show holds(a, ret0.cClauses)
	ensures[C04,C08] bounded: imp(ret1 == nil, bounded(ret0))

// the first listed feature from m on where exactly one side is undefined has the second one undefined
fn prefVarConst(a, p, x1, x2, m) = all(k, m, len(p), imp(all(l, m, k, iff(vb(a, x1, p[l]), cb(x2, p[l]))), !(vb(a, x1, p[k]) && !cb(x2, p[k]))))
fn rankVarConst(a, p, x1, x2, w) = all(i, 0, len(p), iff(val(a, id(w, 0, i)), prefVarConst(a, p, x1, x2, i)))

contract (query/extensions/hepr.VarConst).Encoding
	props C04 C17
	let p = recv.Preference
	let x1 = svar(recv.I1)
	let x2 = sconst(recv.I2)
	requires feats: feats(x2)
	let w = call(recv.FeaturePreferenceRankVarGen, prefStr(p), x1, asStr(x2))
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || !validPref(p, dim) || recv.FeaturePreferenceRankVarGen == nil || len(x2.Val) != dim)
	ensures[C04] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		inductdown i; 0; len(p)-1: iff(val(a, id(w, 0, i)), prefVarConst(a, p, x1, x2, i))
		show iff(holds(a, ret0.sClauses), prefVarConst(a, p, x1, x2, 0))
	ensures[C04] complete:
		assume ret1 == nil
		fix a Asg
		assume rankVarConst(a, p, x1, x2, w)
		show holds(a, ret0.cClauses)
	ensures[C19] apart:
		assume ret1 == nil && roleC(w, 6, x1, asStr(x2)) && reads(asStr(x2), x2) && roleP(w) == prefStr(p) && readsP(prefStr(p), p)
		fix a Asg
		assume canon(a)
		have rankVarConst(a, p, x1, x2, w)
		show holds(a, ret0.cClauses)
	ensures[C04,C08] bounded: imp(ret1 == nil, bounded(ret0))

// the first listed feature from m on where exactly one side is undefined has the second one undefined
fn prefVarVar(a, p, x1, x2, m) = all(k, m, len(p), imp(all(l, m, k, iff(vb(a, x1, p[l]), vb(a, x2, p[l]))), !(vb(a, x1, p[k]) && !vb(a, x2, p[k]))))
fn rankVarVar(a, p, x1, x2, w) = all(i, 0, len(p), iff(val(a, id(w, 0, i)), prefVarVar(a, p, x1, x2, i)))

contract (query/extensions/hepr.VarVar).Encoding
	props C04 C17
	let p = recv.Preference
	let x1 = svar(recv.I1)
	let x2 = svar(recv.I2)
	let w = call(recv.FeaturePreferenceRankVarGen, prefStr(p), x1, x2)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || !validPref(p, dim) || recv.FeaturePreferenceRankVarGen == nil)
	ensures[C04] sem:
		assume ret1 == nil
		fix a Asg
		assume holds(a, ret0.cClauses)
		inductdown i; 0; len(p)-1: iff(val(a, id(w, 0, i)), prefVarVar(a, p, x1, x2, i))
		show iff(holds(a, ret0.sClauses), prefVarVar(a, p, x1, x2, 0))
	ensures[C04] complete:
		assume ret1 == nil
		fix a Asg
		assume rankVarVar(a, p, x1, x2, w)
		show holds(a, ret0.cClauses)
	ensures[C19] apart:
		assume ret1 == nil && role2(w, 7, x1, x2) && roleP(w) == prefStr(p) && readsP(prefStr(p), p)
		fix a Asg
		assume canon(a)
		have rankVarVar(a, p, x1, x2, w)
		show holds(a, ret0.cClauses)
	ensures[C04,C08] bounded: imp(ret1 == nil, bounded(ret0))
