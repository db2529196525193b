// C08: connectives and variable introduction.
//
// The contract every formula meets towards the formula it is part of, in terms
// of the scope state s it is encoded in:
//   den(q,s,a)   the formula q is true under the assignment a
//   fr(q,s,a)    a gives every instance variable q uses but does not introduce one value per feature
//   inst(q,s,a)  the same for every instance variable q uses or introduces
//   can(a)       a gives every named auxiliary variable its meaning
//   qerr(q,s)    q cannot be encoded
//   after(q,s)   the scope state when q has been encoded
ufun den(Obj, Obj, Asg) Bool
ufun fr(Obj, Obj, Asg) Bool
ufun inst(Obj, Obj, Asg) Bool
ufun can(Asg) Bool
ufun named(Asg, Asg) Bool
ufun qerr(Obj, Obj) Bool
ufun after(Obj, Obj) Obj
// the open scopes of a state, all but the innermost, how many
ufun stack(Obj) Obj
ufun rest(Obj) Obj
ufun height(Obj) Int

// a and b agree on every variable the context numbers
defn named: allv(a, "Asg", b, "Asg", iff(named(a, b), allv(v, "Str", i, "Int", k, "Int", iff(val(a, id(v, i, k)), val(b, id(v, i, k))))))
// inst, can and den look at numbered variables only
defn instNamed: allp(q, "Obj", s, "Obj", a, "Asg", b, "Asg", imp(inst(q, s, a) && named(a, b), inst(q, s, b)), pats(inst(q, s, a), named(a, b)))
defn canNamed: allp(a, "Asg", b, "Asg", imp(can(a) && named(a, b), can(b)), pats(can(a), named(a, b)))
defn denNamed: allp(q, "Obj", s, "Obj", a, "Asg", b, "Asg", imp(named(a, b), iff(den(q, s, a), den(q, s, b))), pats(den(q, s, a), named(a, b)))
// variables reserved by raising the top value have no name
defn extNamed: allp(a, "Asg", b, "Asg", t, "Int", u, "Int", imp(ext(a, b, t, u) && allv(v, "Str", i, "Int", k, "Int", id(v, i, k) <= t || id(v, i, k) > u), named(a, b)), ext(a, b, t, u))

fn completes(a, b, t0, cs) = named(a, b) && agree(a, b, t0) && agreeAbove(a, b, topv) && holds(b, cs)

contract iface:LogOpQ.Encoding
	assumed the contract of a formula towards the formula it is part of; proved for the connectives here and, piece by piece, for the atoms under C01 to C07
	modifies topv sigma
	ensures err: iff(ret1 != nil, arg0 == nil || qerr(recv, old(sigma)))
	ensures scope: imp(ret1 == nil, sigma == after(recv, old(sigma))) && stack(sigma) == stack(old(sigma))
	ensures grows: topv >= old(topv)
	ensures bounded: imp(ret1 == nil, bounded(ret0))
	ensures sem: imp(ret1 == nil, allv(a, "Asg", imp(fr(recv, old(sigma), a) && holds(a, ret0.cClauses), iff(holds(a, ret0.sClauses), den(recv, old(sigma), a)))))
	ensures extend: imp(ret1 == nil, allp(a, "Asg", imp(can(a) && inst(recv, old(sigma), a), exv(b, "Asg", completes(a, b, old(topv), ret0.cClauses))), mark(a)))

contract (query/logop.Not).Encoding
	props C08 C17
	let q = recv.Q
	let s = sigma
	ensures[C08,C17] err: iff(ret1 != nil, arg0 == nil || q == nil || qerr(q, s))
	ensures[C08] scope: imp(ret1 == nil, sigma == after(q, s))
	ensures[C08,C19] grows: topv >= old(topv)
	ensures[C08,C19] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C08] sem: imp(ret1 == nil, allv(a, "Asg", imp(fr(q, s, a) && holds(a, ret0.cClauses), iff(holds(a, ret0.sClauses), !den(q, s, a)))))
	ensures[C08,C19] extend:
		assume ret1 == nil
		fix a Asg on mark(a)
		have mark(a)
		assume can(a) && inst(q, s, a)
		take b Asg: completes(a, b, old(topv), ret0.cClauses)

contract (query/logop.And).Encoding
	props C08 C17
	let q = recv.Q1
	let r = recv.Q2
	let s = sigma
	ensures[C08,C17] err: iff(ret1 != nil, arg0 == nil || q == nil || r == nil || qerr(q, s) || qerr(r, after(q, s)))
	ensures[C08] scope: imp(ret1 == nil, sigma == after(r, after(q, s)))
	ensures[C08,C19] grows: topv >= old(topv)
	ensures[C08,C19] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C08] sem: imp(ret1 == nil, allv(a, "Asg", imp(fr(q, s, a) && fr(r, after(q, s), a) && holds(a, ret0.cClauses), iff(holds(a, ret0.sClauses), den(q, s, a) && den(r, after(q, s), a)))))
	ensures[C08,C19] extend:
		assume ret1 == nil
		fix a Asg on mark(a)
		have mark(a)
		assume can(a) && inst(q, s, a) && inst(r, after(q, s), a)
		set c1 = res("LogOpQ.Encoding", 0)
		set c2 = res("LogOpQ.Encoding", 1)
		take b1 Asg on holds(b1, c1.cClauses): completes(a, b1, old(topv), c1.cClauses)
		have mark(b1)
		take b Asg on holds(b, c2.cClauses): completes(b1, b, old(topv), ret0.cClauses)
		show completes(a, b, old(topv), ret0.cClauses)

contract (query/logop.Or).Encoding
	props C08 C17
	let q = recv.Q1
	let r = recv.Q2
	let s = sigma
	ensures[C08,C17] err: iff(ret1 != nil, arg0 == nil || q == nil || r == nil || qerr(q, s) || qerr(r, after(q, s)))
	ensures[C08] scope: imp(ret1 == nil, sigma == after(r, after(q, s)))
	ensures[C08,C19] grows: topv >= old(topv)
	ensures[C08,C19] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C08] sem: imp(ret1 == nil, allv(a, "Asg", imp(fr(q, s, a) && fr(r, after(q, s), a) && holds(a, ret0.cClauses), iff(holds(a, ret0.sClauses), den(q, s, a) || den(r, after(q, s), a)))))
	ensures[C08,C19] extend:
		assume ret1 == nil
		fix a Asg on mark(a)
		have mark(a)
		assume can(a) && inst(q, s, a) && inst(r, after(q, s), a)
		set c1 = res("LogOpQ.Encoding", 0)
		set c2 = res("LogOpQ.Encoding", 1)
		set n1 = res("Negate", 0)
		set n2 = res("Negate", 1)
		take b1 Asg on holds(b1, c1.cClauses): completes(a, b1, old(topv), c1.cClauses)
		have mark(b1)
		take b2 Asg on holds(b2, c2.cClauses): completes(b1, b2, old(topv), c2.cClauses) && holds(b2, c1.cClauses)
		have mark(b2)
		have completes(a, b2, old(topv), c2.cClauses)
		take b3 Asg on holds(b3, n1.cClauses): completes(b2, b3, old(topv), n1.cClauses) && holds(b3, c2.cClauses)
		have mark(b3)
		have completes(a, b3, old(topv), n1.cClauses)
		take b4 Asg on holds(b4, n2.cClauses): completes(b3, b4, old(topv), n2.cClauses) && holds(b4, n1.cClauses)
		have mark(b4)
		have completes(a, b4, old(topv), n2.cClauses)
		take b Asg on holds(b, ret0.cClauses): completes(b4, b, old(topv), ret0.cClauses)
		show completes(a, b, old(topv), ret0.cClauses)


contract (query/logop.WithVar).Encoding
	props C08 C17
	let q = recv.Q
	let s = app("sigmaAddVar", "Obj", sigma, recv.I)
	let v = svarAt(s, recv.I)
	ensures[C08,C17] err: iff(ret1 != nil, arg0 == nil || q == nil || qerr(q, s))
	ensures[C08] scope: imp(ret1 == nil, sigma == after(q, s))
	ensures[C08,C19] grows: topv >= old(topv)
	ensures[C08,C19] bounded: imp(ret1 == nil, bounded(ret0))
	ensures[C08] oneValue: imp(ret1 == nil, allv(a, "Asg", imp(holds(a, ret0.cClauses), wf(a, v))))
	ensures[C08] sem: imp(ret1 == nil, allv(a, "Asg", imp(imp(wf(a, v), fr(q, s, a)) && holds(a, ret0.cClauses), iff(holds(a, ret0.sClauses), den(q, s, a)))))
	ensures[C08,C19] extend:
		assume ret1 == nil
		fix a Asg on mark(a)
		have mark(a)
		assume can(a) && wf(a, v) && inst(q, s, a)
		set c1 = res("LogOpQ.Encoding", 0)
		take b Asg on holds(b, c1.cClauses): completes(a, b, old(topv), c1.cClauses)
		show completes(a, b, old(topv), ret0.cClauses)
