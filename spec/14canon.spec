// C19: formulas of different components never interfere.
//
// The name of an auxiliary variable has one role. That the name generators are
// injective and kept apart, and that names do not imitate generated ones, is the
// assumption that these functions exist and that instance variables have role 0:
//   1 counts of undefined features of X       5 preference of X (constant) over Y by P
//   2 distance of X to the constant Y         6 preference of X over Y (constant) by P
//   3 distance of X to Y                      7 preference of X over Y by P
//   4 equality of X and Y                     8 nodes reached by X
ufun roleOf(Str) Int
ufun roleX(Str) Str
ufun roleY(Str) Str
ufun roleP(Str) Str
fn role(w, r, x) = roleOf(w) == r && roleX(w) == x && roleOf(x) == 0
fn role2(w, r, x, y) = role(w, r, x) && roleY(w) == y && roleOf(y) == 0
fn roleC(w, r, x, s) = role(w, r, x) && roleY(w) == s
// what a rendered constant and a rendered preference list are read back as
// (the renderings are injective)
ufun featOf(Str, Int) Int
ufun prefAt(Str, Int) Int
ufun prefLen(Str) Int
fn reads(s, c) = all(f, 0, dim, featOf(s, f) == c.Val[f])
fn readsP(s, p) = prefLen(s) == len(p) && all(i, 0, len(p), prefAt(s, i) == p[i])

// the meaning of every auxiliary variable, by its name and numbers
fn sdiff(a, v, s, n) = sum(k, 0, n, ite(vv(a, v, k) == featOf(s, k), 0, 1))
fn sb(s, f) = featOf(s, f) == 0
fn rankSV(a, p, s, y, m) = all(k, m, prefLen(p), imp(all(l, m, k, iff(sb(s, prefAt(p, l)), vb(a, y, prefAt(p, l)))), !(sb(s, prefAt(p, k)) && !vb(a, y, prefAt(p, k)))))
fn rankVS(a, p, x, s, m) = all(k, m, prefLen(p), imp(all(l, m, k, iff(vb(a, x, prefAt(p, l)), sb(s, prefAt(p, l)))), !(vb(a, x, prefAt(p, k)) && !sb(s, prefAt(p, k)))))
fn rankVV(a, p, x, y, m) = all(k, m, prefLen(p), imp(all(l, m, k, iff(vb(a, x, prefAt(p, l)), vb(a, y, prefAt(p, l)))), !(vb(a, x, prefAt(p, k)) && !vb(a, y, prefAt(p, k)))))
// one predicate a role: the auxiliary variable (w, i, k) of the role is true
ufun m1(Asg, Str, Int, Int) Bool
ufun m2(Asg, Str, Int, Int) Bool
ufun m3(Asg, Str, Int, Int) Bool
ufun m4(Asg, Str, Int, Int) Bool
ufun m5(Asg, Str, Int, Int) Bool
ufun m6(Asg, Str, Int, Int) Bool
ufun m7(Asg, Str, Int, Int) Bool
ufun m8(Asg, Str, Int, Int) Bool
defn m1: allp(a, "Asg", w, "Str", i, "Int", k, "Int", imp(0 <= i && i < dim, iff(m1(a, w, i, k), vbots(a, roleX(w), i+1) == k)), m1(a, w, i, k))
defn m2: allp(a, "Asg", w, "Str", i, "Int", k, "Int", imp(0 <= i && i < dim, iff(m2(a, w, i, k), sdiff(a, roleX(w), roleY(w), i+1) == k)), m2(a, w, i, k))
defn m3: allp(a, "Asg", w, "Str", i, "Int", k, "Int", imp(0 <= i && i < dim, iff(m3(a, w, i, k), vvdiff(a, roleX(w), roleY(w), i+1) == k)), m3(a, w, i, k))
defn m4: allp(a, "Asg", w, "Str", i, "Int", k, "Int", imp(0 <= i && i < dim, iff(m4(a, w, i, k), vv(a, roleX(w), i) == vv(a, roleY(w), i))), m4(a, w, i, k))
defn m5: allp(a, "Asg", w, "Str", i, "Int", k, "Int", iff(m5(a, w, i, k), rankSV(a, roleP(w), roleX(w), roleY(w), k)), m5(a, w, i, k))
defn m6: allp(a, "Asg", w, "Str", i, "Int", k, "Int", iff(m6(a, w, i, k), rankVS(a, roleP(w), roleX(w), roleY(w), k)), m6(a, w, i, k))
defn m7: allp(a, "Asg", w, "Str", i, "Int", k, "Int", iff(m7(a, w, i, k), rankVV(a, roleP(w), roleX(w), roleY(w), k)), m7(a, w, i, k))
defn m8: allp(a, "Asg", w, "Str", i, "Int", k, "Int", iff(m8(a, w, i, k), ite(i == 1, vOn(a, roleX(w), k), vMeets(a, roleX(w), k))), m8(a, w, i, k))
fn meaning(a, w, i, k) = ite(roleOf(w) == 1, m1(a, w, i, k), ite(roleOf(w) == 2, m2(a, w, i, k), ite(roleOf(w) == 3, m3(a, w, i, k), ite(roleOf(w) == 4, m4(a, w, i, k),
	ite(roleOf(w) == 5, m5(a, w, i, k), ite(roleOf(w) == 6, m6(a, w, i, k), ite(roleOf(w) == 7, m7(a, w, i, k), m8(a, w, i, k))))))))
fn inRange(w, i) = roleOf(w) != 0 && (roleOf(w) > 4 || 0 <= i && i < dim)

defn roleX: allp(w, "Str", imp(roleOf(w) != 0, 1 <= roleOf(w) && roleOf(w) <= 8 && imp(roleOf(w) != 5, roleOf(roleX(w)) == 0)), roleX(w))
defn roleY: allp(w, "Str", imp(roleOf(w) == 3 || roleOf(w) == 4 || roleOf(w) == 5 || roleOf(w) == 7, roleOf(roleY(w)) == 0), roleY(w))

ufun canon(Asg) Bool
defn canon: allp(a, "Asg", iff(canon(a), allp(w, "Str", i, "Int", k, "Int", imp(inRange(w, i), iff(val(a, id(w, i, k)), meaning(a, w, i, k))), id(w, i, k))), canon(a))

fn nameOf(n) = app("idV", "Str", n)
fn fstOf(n) = app("idI", "Int", n)
fn sndOf(n) = app("idK", "Int", n)

// a and b agree on the instance variables
fn sameInst(a, b) = allp(x, "Str", i, "Int", k, "Int", imp(roleOf(x) == 0, iff(val(b, id(x, i, k)), val(a, id(x, i, k)))), val(b, id(x, i, k)))

// the meanings depend on the instance variables only
lemma sameMeanings
	props C19
	param a Asg
	param b Asg
	requires same: sameInst(a, b)
	ensures m1:
		fix w Str on roleX(w)
		assume roleOf(w) == 1
		induct n; 0; dim: vbots(a, roleX(w), n) == vbots(b, roleX(w), n)
		show allp(i, "Int", k, "Int", imp(0 <= i && i < dim, iff(m1(a, w, i, k), m1(b, w, i, k))), m1(b, w, i, k))
	ensures m2:
		fix w Str on roleX(w)
		assume roleOf(w) == 2
		induct n; 0; dim: sdiff(a, roleX(w), roleY(w), n) == sdiff(b, roleX(w), roleY(w), n)
		show allp(i, "Int", k, "Int", imp(0 <= i && i < dim, iff(m2(a, w, i, k), m2(b, w, i, k))), m2(b, w, i, k))
	ensures m3:
		fix w Str on roleX(w)
		assume roleOf(w) == 3
		induct n; 0; dim: vvdiff(a, roleX(w), roleY(w), n) == vvdiff(b, roleX(w), roleY(w), n)
		show allp(i, "Int", k, "Int", imp(0 <= i && i < dim, iff(m3(a, w, i, k), m3(b, w, i, k))), m3(b, w, i, k))
	ensures m4: allp(w, "Str", i, "Int", k, "Int", imp(roleOf(w) == 4 && 0 <= i && i < dim, iff(m4(a, w, i, k), m4(b, w, i, k))), m4(b, w, i, k))
	ensures m5: allp(w, "Str", i, "Int", k, "Int", imp(roleOf(w) == 5, iff(m5(a, w, i, k), m5(b, w, i, k))), m5(b, w, i, k))
	ensures m6: allp(w, "Str", i, "Int", k, "Int", imp(roleOf(w) == 6, iff(m6(a, w, i, k), m6(b, w, i, k))), m6(b, w, i, k))
	ensures m7: allp(w, "Str", i, "Int", k, "Int", imp(roleOf(w) == 7, iff(m7(a, w, i, k), m7(b, w, i, k))), m7(b, w, i, k))
	ensures m8: allp(w, "Str", i, "Int", k, "Int", imp(roleOf(w) == 8, iff(m8(a, w, i, k), m8(b, w, i, k))), m8(b, w, i, k))
// so whatever values the instance variables have, all auxiliary variables can have their meaning at once
lemma canonical
	props C19
	ensures exists:
		fix a Asg on mark(a)
		define b n: ite(roleOf(nameOf(n)) != 0, meaning(a, nameOf(n), fstOf(n), sndOf(n)), val(a, n))
		have allp(w, "Str", i, "Int", k, "Int", iff(val(b, id(w, i, k)), ite(roleOf(w) != 0, meaning(a, w, i, k), val(a, id(w, i, k)))), id(w, i, k))
		have sameInst(a, b)
		use sameMeanings; a; b
		show canon(b) && sameInst(a, b)
// and having them depends on the numbered variables only, as the connectives use it (C08)
lemma canonNamed
	props C19
	param a Asg
	param b Asg
	requires can: canon(a) && named(a, b)
	ensures can:
		have sameInst(a, b)
		use sameMeanings; a; b
		show canon(b)
