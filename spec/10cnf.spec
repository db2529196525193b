// C10 (and C18): the operations on formulas.
//
// Numbers: every operation keeps the invariant that the literals of a formula
// are non-zero and within its top variable.

fn okTop(f) = bnd(f.tv, f.sClauses) && bnd(f.tv, f.cClauses) && 0 <= f.tv
fn nz(cs) = each(c, cs, each(l, c, l != 0))
fn agree(a, b, t) = allp(n, "Int", imp(1 <= n && n <= t, iff(val(a, n), val(b, n))), val(b, n))
fn agreeAbove(a, b, t) = allp(n, "Int", imp(n > t, iff(val(a, n), val(b, n))), val(b, n))
// b is a except for the variables in (t, u]
ufun ext(Asg, Asg, Int, Int) Bool
defn ext: allp(a, "Asg", b, "Asg", t, "Int", u, "Int", iff(ext(a, b, t, u), agree(a, b, t) && agreeAbove(a, b, u)), ext(a, b, t, u))
fn within(a, b, cs) = each(c, cs, each(l, c, abs(l) <= a || abs(l) > b))

contract cnf.FromClauses
	props C10 C18
	requires nz: nz(arg0)
	ensures[C10] sem: allv(a, "Asg", iff(holds(a, ret0.sClauses), holds(a, arg0)) && holds(a, ret0.cClauses))
	ensures[C10] same: sameList(ret0.sClauses, arg0) && len(ret0.cClauses) == 0
	ensures[C10] top: okTop(ret0)

contract (cnf.CNF).AppendSemantics
	props C10 C18
	requires top: okTop(recv)
	requires nz: nz(arg0)
	ensures[C10] sem: allv(a, "Asg", iff(holds(a, ret0.sClauses), holds(a, recv.sClauses) && holds(a, arg0)))
	ensures[C10] cons: allv(a, "Asg", iff(holds(a, ret0.cClauses), holds(a, recv.cClauses)))
	ensures[C10] count: len(ret0.sClauses) == len(recv.sClauses) + len(arg0) && len(ret0.cClauses) == len(recv.cClauses)
	ensures[C10] top: okTop(ret0) && ret0.tv >= recv.tv

contract (cnf.CNF).AppendConsistency
	props C10 C18
	requires top: okTop(recv)
	requires nz: nz(arg0)
	ensures[C10] sem: allv(a, "Asg", iff(holds(a, ret0.sClauses), holds(a, recv.sClauses)))
	ensures[C10] cons: allv(a, "Asg", iff(holds(a, ret0.cClauses), holds(a, recv.cClauses) && holds(a, arg0)))
	ensures[C10] count: len(ret0.cClauses) == len(recv.cClauses) + len(arg0) && len(ret0.sClauses) == len(recv.sClauses)
	ensures[C10] top: okTop(ret0) && ret0.tv >= recv.tv

contract (cnf.CNF).Conjunction
	props C10 C18
	requires top: okTop(recv) && okTop(arg0)
	ensures[C10] sem: allv(a, "Asg", iff(holds(a, ret0.sClauses), holds(a, recv.sClauses) && holds(a, arg0.sClauses)))
	ensures[C10] cons: allv(a, "Asg", iff(holds(a, ret0.cClauses), holds(a, recv.cClauses) && holds(a, arg0.cClauses)))
	ensures[C10] count: len(ret0.cClauses) == len(recv.cClauses) + len(arg0.cClauses) && len(ret0.sClauses) == len(recv.sClauses) + len(arg0.sClauses)
	ensures[C10] top: okTop(ret0) && ret0.tv >= recv.tv

contract (cnf.CNF).TopV
	props C10 C18
	ensures[C10] top: ret0 == recv.tv

contract (cnf.CNF).Clauses
	props C10 C12 C18
	ensures[C10,C12] both: sameList(ret0, recv.sClauses) && sameList(ret1, recv.cClauses)

contract (cnf.CNF).TriviallyTrue
	props C10 C18
	ensures[C10] iff: iff(ret0, len(recv.sClauses) == 0 && len(recv.cClauses) == 0)

contract (cnf.CNF).TriviallyFalse
	props C10 C18
	ensures[C10] iff: iff(ret0, ex(i, 0, len(recv.sClauses), len(recv.sClauses[i]) == 0) || ex(i, 0, len(recv.cClauses), len(recv.cClauses[i]) == 0))

// multi: the clause needs an auxiliary variable; cnt: how many before clause k do
fn multi(f, k) = len(f.sClauses[k]) > 1
fn cnt(f, k) = sum(i, 0, k, ite(len(f.sClauses[i]) > 1, 1, 0))
// n is the auxiliary variable of clause k when numbering starts above t
fn auxOf(f, t, k, n) = multi(f, k) && n == t + 1 + cnt(f, k)

contract (cnf.CNF).Negate
	modular
	props C10 C18
	let t = ite(len(arg0) > 0, max(recv.tv, arg0[0]), recv.tv)
	requires top: okTop(recv)
	ensures[C10,C19] kept: allv(a, "Asg", imp(holds(a, ret0.cClauses), holds(a, recv.cClauses)))
	ensures[C10] sem: allv(a, "Asg", imp(holds(a, ret0.cClauses), iff(holds(a, ret0.sClauses), !holds(a, recv.sClauses))))
	ensures[C10,C19] top:
		induct k; 0; len(recv.sClauses): cnt(recv, k) >= 0 && all(j, 0, k, cnt(recv, j) + ite(multi(recv, j), 1, 0) <= cnt(recv, k))
		show okTop(ret0) && ret0.tv >= t
	ensures[C10,C19] above: within(recv.tv, t, ret0.sClauses) && within(recv.tv, t, ret0.cClauses)
	ensures[C10,C19] extend:
		induct k; 0; len(recv.sClauses): all(j, 0, k, cnt(recv, j) + ite(multi(recv, j), 1, 0) <= cnt(recv, k))
		fix a Asg on mark(a)
		assume holds(a, recv.cClauses)
		define b n: ite(n <= t || n > ret0.tv, val(a, n), ite(n == t + 1 + cnt(recv, len(recv.sClauses)), ex(k, 0, len(recv.sClauses), !holdsc(a, recv.sClauses[k])), ex(k, 0, len(recv.sClauses), auxOf(recv, t, k, n) && !holdsc(a, recv.sClauses[k]))))
		show ext(a, b, t, ret0.tv)
		show holds(b, ret0.cClauses)
