// C11: the variable manager of a context. The contracts are on the methods a
// context exports, so an operation that a context overrides is seen.

fn nums(m) = m.baseVarManager.vars
fn ntop(m) = m.baseVarManager.topv
// every number is positive and within the top value, no two triples share one
fn vmOk(m) = 0 <= ntop(m) && allv(v, "Str", i, "Int", k, "Int", imp(has(nums(m), v, i, k), 1 <= get(nums(m), v, i, k) && get(nums(m), v, i, k) <= ntop(m))) && allv(v, "Str", i, "Int", k, "Int", w, "Str", j, "Int", l, "Int", imp(has(nums(m), v, i, k) && has(nums(m), w, j, l) && get(nums(m), v, i, k) == get(nums(m), w, j, l), v == w && i == j && k == l))
fn vmSame(m) = allv(v, "Str", i, "Int", k, "Int", iff(has(nums(m), v, i, k), has(old(nums(m)), v, i, k)) && imp(has(old(nums(m)), v, i, k), get(nums(m), v, i, k) == get(old(nums(m)), v, i, k)))
fn vmEmpty(m) = allv(v, "Str", i, "Int", k, "Int", !has(nums(m), v, i, k))

contract query.BasicQContext
	props C11 C13
	ensures[C11] start: vmEmpty(as(ret0, "query.baseQContext")) && ntop(as(ret0, "query.baseQContext")) == 0
	ensures[C13] initial: scOk(as(ret0, "query.baseQContext")) && len(scs(as(ret0, "query.baseQContext"))) == 0 && allv(v, "Str", !has(lev(as(ret0, "query.baseQContext")), v))

contract (*query.baseQContext).CNFVar
	props C11 C13
	owns recv.baseScoper.scopes
	requires ok: vmOk(recv)
	ensures[C11,C19] ok: vmOk(recv)
	ensures[C11,C19] known: imp(has(old(nums(recv)), arg0, arg1, arg2), ret0 == get(old(nums(recv)), arg0, arg1, arg2) && vmSame(recv) && ntop(recv) == old(ntop(recv)))
	ensures[C11,C19] fresh: imp(!has(old(nums(recv)), arg0, arg1, arg2), ret0 > old(ntop(recv)) && ntop(recv) >= ret0)
	ensures[C11,C19] number: ret0 >= 1 && has(nums(recv), arg0, arg1, arg2) && get(nums(recv), arg0, arg1, arg2) == ret0
	ensures[C11,C19] others: allv(v, "Str", i, "Int", k, "Int", imp(!(v == arg0 && i == arg1 && k == arg2), iff(has(nums(recv), v, i, k), has(old(nums(recv)), v, i, k)) && imp(has(nums(recv), v, i, k), get(nums(recv), v, i, k) == get(old(nums(recv)), v, i, k))))
	ensures[C13] frame: imp(old(scOk(recv)), scOk(recv)) && sameScopes(recv) && sameLevels(recv)

contract (*query.baseQContext).CNFVarExists
	props C11 C13
	owns recv.baseScoper.scopes
	requires ok: vmOk(recv)
	ensures[C11] iff: iff(ret0, has(old(nums(recv)), arg0, arg1, arg2))
	ensures[C11] same: vmSame(recv) && ntop(recv) == old(ntop(recv))
	ensures[C13] frame: imp(old(scOk(recv)), scOk(recv)) && sameScopes(recv) && sameLevels(recv)

contract (*query.baseQContext).TopV
	props C11 C13
	owns recv.baseScoper.scopes
	requires ok: vmOk(recv)
	ensures[C11] top: ret0 == ntop(recv)
	ensures[C11] same: vmSame(recv) && ntop(recv) == old(ntop(recv))
	ensures[C13] frame: imp(old(scOk(recv)), scOk(recv)) && sameScopes(recv) && sameLevels(recv)

contract (*query.baseQContext).UpdateTopV
	props C11 C13
	owns recv.baseScoper.scopes
	requires ok: vmOk(recv)
	ensures[C11,C19] ok: vmOk(recv)
	ensures[C11] took: iff(ret0, arg0 >= old(ntop(recv)))
	ensures[C11,C19] raised: ntop(recv) == ite(ret0, arg0, old(ntop(recv)))
	ensures[C11,C19] same: vmSame(recv)
	ensures[C13] frame: imp(old(scOk(recv)), scOk(recv)) && sameScopes(recv) && sameLevels(recv)

contract (*query.baseQContext).Reset
	props C11 C13
	requires ok: scOk(recv)
	ensures[C11] empty: vmEmpty(recv) && ntop(recv) == 0
	ensures[C13] initial: scOk(recv) && len(scs(recv)) == 0 && allv(v, "Str", !has(lev(recv), v))
