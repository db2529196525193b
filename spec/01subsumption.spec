// C01: subsumption. x ⊆ y iff every defined feature of x has that value in y.

contract (query/predicates/subsumption.ConstConst).Encoding
	props C01 C17
	let c = sconst(recv.I1)
	let d = sconst(recv.I2)
	requires feats: feats(c) && feats(d)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || len(c.Val) != dim || len(d.Val) != dim)
	ensures[C01] sem: imp(ret1 == nil, allv(a, "Asg", iff(holds(a, ret0.sClauses),
		all(i, 0, dim, imp(c.Val[i] != 0, c.Val[i] == d.Val[i])))))
	ensures[C01,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C01,C19] free: imp(ret1 == nil, free(ret0))

contract (query/predicates/subsumption.ConstVar).Encoding
	props C01 C17
	let c = sconst(recv.I1)
	let y = svar(recv.I2)
	requires feats: feats(c)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || len(c.Val) != dim)
	ensures[C01] sem: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, y), iff(holds(a, ret0.sClauses),
		all(i, 0, dim, imp(c.Val[i] != 0, c.Val[i] == vv(a,y,i)))))))
	ensures[C01,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C01,C19] free: imp(ret1 == nil, free(ret0))

contract (query/predicates/subsumption.VarConst).Encoding
	props C01 C17
	let x = svar(recv.I1)
	let d = sconst(recv.I2)
	requires feats: feats(d)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil || len(d.Val) != dim)
	ensures[C01] sem: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x), iff(holds(a, ret0.sClauses),
		all(i, 0, dim, imp(vv(a,x,i) != 0, vv(a,x,i) == d.Val[i]))))))
	ensures[C01,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C01,C19] free: imp(ret1 == nil, free(ret0))

contract (query/predicates/subsumption.VarVar).Encoding
	props C01 C17
	let x = svar(recv.I1)
	let y = svar(recv.I2)
	ensures[C17] err: iff(ret1 != nil, arg0 == nil)
	ensures[C01] sem: imp(ret1 == nil, allv(a, "Asg", imp(wf(a, x) && wf(a, y), iff(holds(a, ret0.sClauses),
		all(i, 0, dim, imp(vv(a,x,i) != 0, vv(a,x,i) == vv(a,y,i)))))))
	ensures[C01,C08] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C01,C19] free: imp(ret1 == nil, free(ret0))
