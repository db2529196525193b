// Common vocabulary.
//
// dim            the model's dimension          nodes   the model's node list
// topv, sigma    the context's top number and scope state (current state)
// id(v,i,k)      the CNF number of the triple (v,i,k)
// val(a,n)       the truth value of variable n under the assignment a

// the assignment gives exactly one value to every feature of v
fn oneHot(a, v, i) = (val(a,id(v,i,0)) || val(a,id(v,i,1)) || val(a,id(v,i,2))) &&
	!(val(a,id(v,i,0)) && val(a,id(v,i,1))) && !(val(a,id(v,i,0)) && val(a,id(v,i,2))) && !(val(a,id(v,i,1)) && val(a,id(v,i,2)))
fn wf(a, v) = all(i, 0, dim, oneHot(a, v, i))
// the value of feature i of the instance the assignment describes for v
fn vv(a, v, i) = ite(val(a,id(v,i,1)), 1, ite(val(a,id(v,i,2)), 2, 0))

fn feats(c) = all(i, 0, len(c.Val), 0 <= c.Val[i] && c.Val[i] <= 2)
// the formula's numbers are within its top value, itself within the context's
fn bounded(r) = bnd(r.tv, r.sClauses) && bnd(r.tv, r.cClauses) && 0 <= r.tv && r.tv <= topv
fn free(r) = allv(a, "Asg", holds(a, r.cClauses))

// an instance rendered as a string, one character a feature
fn asStr(c) = catfor(i, 0, len(c.Val), ite(c.Val[i] == 0, "_", ite(c.Val[i] == 1, "0", "1")))
contract (query.QConst).AsString
	modular
	props C03 C04 C19 C17
	requires feats: feats(recv)
	ensures[C03,C04,C19] str: ret0 == asStr(recv)
// mark marks the assignments an existence clause is to be applied to; it is always true
ufun mark(Asg) Bool
defn mark: allv(a, "Asg", mark(a))
