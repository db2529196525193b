// C15: boolean combinations of queries.
//
//   sat(q,x,s)   the sub-query q holds in the context x, by the solver s
//   sol(q,x,s)   the formula q has a satisfying valuation in the context x, by the solver s
//   failed       an error other than unsatisfiability has been reached
ufun sat(Obj, Obj, Obj) Bool
ufun sol(Obj, Obj, Obj) Bool
ghost failed Bool
//   queries        how many queries the solver has been given
//   kept         the valuation of the last successful query
//   epoch        how often the numbering of variables has been started afresh
//   models(q,m)  the valuation m makes the formula q true
//   at(m,v)      the value of the instance variable v in the valuation m
ghost queries Int
ghost kept Obj
ghost epoch Int
ufun models(Obj, Obj) Bool
ufun at(Obj, Str) Feats
ufun epochOf(Obj) Int

fn unsatErr(e) = errIsA(e, "compute.UnsatError")

contract iface:Solver.Step
	assumed a solver that answers correctly; proved for the executable solver, up to the executable itself, under C16
	modifies topv sigma failed queries kept
	ensures sat: imp(ret0 == nil, sol(arg0, arg1, recv) && models(arg0, kept) && epochOf(kept) == epoch)
	ensures unsat: imp(ret0 != nil && unsatErr(ret0), !sol(arg0, arg1, recv) && allp(m, "Obj", !models(arg0, m), models(arg0, m)))
	ensures keeps: imp(ret0 != nil, kept == old(kept))
	ensures queries: queries == old(queries) + 1
	ensures failed: iff(failed, old(failed) || ret0 != nil && !unsatErr(ret0))

contract iface:Solver.Values
	assumed a solver that answers correctly; proved for the executable solver under C16
	modifies topv failed
	ensures failed: iff(failed, old(failed) || ret1 != nil)
	ensures values: imp(ret1 == nil, len(ret0) == len(arg0) && imp(epochOf(kept) == epoch, all(i, 0, len(arg0), ref(ret0[i].Val) == ref(at(kept, arg0[i])))))

contract iface:QDTFCombinator.Sat
	assumed the contract of a sub-query towards the combination it is part of; proved for the and-combination, the or-combination and the atom here
	modifies topv sigma failed queries kept
	ensures ans: imp(ret1 == nil, iff(ret0, sat(recv, arg0, arg1)))
	ensures err: imp(ret1 != nil, !ret0 && !unsatErr(ret1))
	ensures failed: iff(failed, old(failed) || ret1 != nil)

contract (compute.AndCombinator).Sat
	props C15
	requires given: all(i, 0, len(recv), recv[i] != nil)
	ensures[C15] ans: imp(ret1 == nil, iff(ret0, all(i, 0, len(recv), sat(recv[i], arg0, arg1))))
	ensures[C15] err: imp(ret1 != nil, !ret0 && !unsatErr(ret1))
	ensures[C15] failed: iff(failed, old(failed) || ret1 != nil)
	loop 0:
		invariant so: all(i, 0, index, sat(recv[i], arg0, arg1))
		invariant failed: iff(failed, old(failed))

contract (compute.OrCombinator).Sat
	props C15
	requires given: all(i, 0, len(recv), recv[i] != nil)
	ensures[C15] ans: imp(ret1 == nil, iff(ret0, ex(i, 0, len(recv), sat(recv[i], arg0, arg1))))
	ensures[C15] err: imp(ret1 != nil, !ret0 && !unsatErr(ret1))
	ensures[C15] failed: iff(failed, old(failed) || ret1 != nil)
	loop 0:
		invariant so: all(i, 0, index, !sat(recv[i], arg0, arg1))
		invariant failed: iff(failed, old(failed))

contract (compute.QDTFAtom).Sat
	props C15
	requires given: arg1 != nil
	ensures[C15] ans: imp(ret1 == nil, iff(ret0, iff(sol(recv.Query, arg0, arg1), !recv.Negated)))
	ensures[C15] err: imp(ret1 != nil, !ret0 && !unsatErr(ret1))
	ensures[C15] failed: iff(failed, old(failed) || ret1 != nil)
