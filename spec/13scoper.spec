// C13: the scopes of a context.

fn scs(m) = m.baseScoper.scopes
fn lev(m) = m.baseScoper.vars
fn level(m, v) = ite(has(lev(m), v), get(lev(m), v), 0)
fn scOk(m) = imp(has_field(m.baseScoper, "builder"), m.baseScoper.builder == "") && allv(v, "Str", imp(has(lev(m), v), 1 <= get(lev(m), v) && get(lev(m), v) <= len(scs(m))))
fn sameScopes(m) = len(scs(m)) == old(len(scs(m))) && all(q, 0, len(scs(m)), scopeSame(m, q))
fn scopeSame(m, q) = scs(m)[q].target == old(scs(m)[q].target) && scs(m)[q].vIdx == old(scs(m)[q].vIdx) && sameList(scs(m)[q].value, old(scs(m)[q].value))
fn sameLevels(m) = allv(v, "Str", iff(has(lev(m), v), has(old(lev(m)), v)) && imp(has(lev(m), v), get(lev(m), v) == get(old(lev(m)), v)))
fn scopedName(m, v, n) = v + catfor(q, 0, n, "\x1f" + scs(m)[q].target + "\x1f" + itoa(scs(m)[q].vIdx))

contract (*query.baseQContext).ScopeVar
	props C13 C11
	owns recv.baseScoper.scopes
	requires ok: scOk(recv)
	ensures[C13] ok: scOk(recv)
	ensures[C13,C19] name: ret0 == scopedName(recv, arg0, level(recv, arg0))
	ensures[C13,C19] same: sameScopes(recv) && sameLevels(recv)
	ensures[C11] frame: vmSame(recv) && ntop(recv) == old(ntop(recv))

contract (*query.baseQContext).AddVar
	props C13 C11
	owns recv.baseScoper.scopes
	requires ok: scOk(recv)
	ensures[C13] ok: scOk(recv)
	ensures[C13] introduced: level(recv, arg0) == ite(old(has(lev(recv), arg0)), old(level(recv, arg0)), len(scs(recv)))
	ensures[C13] others: allv(v, "Str", imp(v != arg0, iff(has(lev(recv), v), has(old(lev(recv)), v)) && imp(has(lev(recv), v), get(lev(recv), v) == get(old(lev(recv)), v))))
	ensures[C13] same: sameScopes(recv)
	ensures[C11] frame: vmSame(recv) && ntop(recv) == old(ntop(recv))

contract (*query.baseQContext).ScopeConst
	props C13 C11
	owns recv.baseScoper.scopes
	requires ok: scOk(recv)
	ensures[C13] ok: scOk(recv)
	ensures[C13] scoped: iff(ret1, ex(q, 0, len(scs(recv)), scs(recv)[q].target == arg0.ID))
	ensures[C13] taken: imp(ret1, ret0.ID == arg0.ID && all(q, 0, len(scs(recv)), imp(scs(recv)[q].target == arg0.ID && all(p, 0, q, scs(recv)[p].target != arg0.ID), sameList(ret0.Val, scs(recv)[q].value))))
	ensures[C13] unchanged: imp(!ret1, ret0.ID == arg0.ID && sameList(ret0.Val, arg0.Val))
	ensures[C13] same: sameScopes(recv) && sameLevels(recv)
	ensures[C11] frame: vmSame(recv) && ntop(recv) == old(ntop(recv))

contract (*query.baseQContext).AddScope
	props C13 C11
	owns recv.baseScoper.scopes
	requires ok: scOk(recv)
	ensures[C13] ok: scOk(recv)
	ensures[C13] opened: len(scs(recv)) == old(len(scs(recv))) + 1 && scs(recv)[len(scs(recv)) - 1].target == arg0
	ensures[C13] others: all(q, 0, old(len(scs(recv))), scopeSame(recv, q))
	ensures[C13] same: sameLevels(recv)
	ensures[C11] frame: vmSame(recv) && ntop(recv) == old(ntop(recv))

contract (*query.baseQContext).PopScope
	props C13 C11
	owns recv.baseScoper.scopes
	requires ok: scOk(recv)
	ensures[C13] ok: scOk(recv)
	ensures[C13] fails: iff(ret0 != nil, old(len(scs(recv))) == 0)
	ensures[C13] closed: len(scs(recv)) == ite(ret0 != nil, 0, old(len(scs(recv))) - 1)
	ensures[C13] others: all(q, 0, len(scs(recv)), scopeSame(recv, q))
	ensures[C13] forgotten: allv(v, "Str", iff(has(lev(recv), v), has(old(lev(recv)), v) && get(old(lev(recv)), v) < old(len(scs(recv)))) && imp(has(lev(recv), v), get(lev(recv), v) == get(old(lev(recv)), v)))
	ensures[C11] frame: vmSame(recv) && ntop(recv) == old(ntop(recv))

contract (*query.baseQContext).SetScope
	props C13 C11
	owns recv.baseScoper.scopes
	requires ok: scOk(recv)
	ensures[C13] ok: scOk(recv)
	ensures[C13] fails: iff(ret0 != nil, old(len(scs(recv))) == 0)
	ensures[C13] set: imp(ret0 == nil, scs(recv)[len(scs(recv)) - 1].vIdx == arg0 && sameList(scs(recv)[len(scs(recv)) - 1].value, arg1) && scs(recv)[len(scs(recv)) - 1].target == old(scs(recv)[len(scs(recv)) - 1].target))
	ensures[C13] others: len(scs(recv)) == old(len(scs(recv))) && all(q, 0, len(scs(recv)) - 1, scopeSame(recv, q))
	ensures[C13] same: sameLevels(recv)
	ensures[C11] frame: vmSame(recv) && ntop(recv) == old(ntop(recv))

// Names: splitting a name at the separator gives back the pieces it was made
// of when none of them contains it (library fact about strings; an integer's
// decimal form has no separator and determines the integer).
ufun plain(Str) Bool
ufun nmBase(Str) Str
ufun nmLen(Str) Int
ufun nmTgt(Str, Int) Str
ufun nmIdx(Str, Int) Int
fn nameIn(v, s, n) = v + catfor(q, 0, n, "\x1f" + s[q].target + "\x1f" + itoa(s[q].vIdx))
axiom split: allp(v, "Str", s, "[]query.scope", n, "Int", imp(0 <= n && n <= len(s) && plain(v) && all(q, 0, n, plain(s[q].target)), nmBase(nameIn(v, s, n)) == v && nmLen(nameIn(v, s, n)) == n && all(q, 0, n, nmTgt(nameIn(v, s, n), q) == s[q].target && nmIdx(nameIn(v, s, n), q) == s[q].vIdx)), nameIn(v, s, n))

// two variables, or two instantiations of one, never share a name
lemma separate
	props C13 C19
	param u Str
	param v Str
	param s []query.scope
	param t []query.scope
	param m Int
	param n Int
	requires 0 <= m && m <= len(s) && 0 <= n && n <= len(t)
	requires plain(u) && plain(v) && all(q, 0, m, plain(s[q].target)) && all(q, 0, n, plain(t[q].target))
	ensures apart: imp(nameIn(u, s, m) == nameIn(v, t, n), u == v && m == n && all(q, 0, m, s[q].target == t[q].target && s[q].vIdx == t[q].vIdx))
