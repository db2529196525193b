// Decision trees.
//
// reach(n)   n is a node of the tree          par(n)  its parent
// dep(n)     its distance from the root       pv(n,f) the value the path to n gives feature f
ufun reach(Int) Bool
ufun par(Int) Int
ufun dep(Int) Int
ufun pv(Int, Int) Int

fn zc(n) = nodes[n].ZChild
fn oc(n) = nodes[n].OChild
fn ft(n) = nodes[n].Feat
fn inner(n) = zc(n) >= 0 && oc(n) >= 0
fn validNode(n) = imp(inner(n), 0 <= ft(n) && ft(n) < dim && zc(n) < len(nodes) && oc(n) < len(nodes))
fn validNodes() = all(n, 0, len(nodes), validNode(n))

// the list of nodes describes a tree that decides no feature twice on a path
fn treeShape() = reach(0) && dep(0) == 0 &&
	allp(n, "Int", imp(reach(n), 0 <= n && n < len(nodes) && 0 <= dep(n) && dep(n) < len(nodes)), reach(n)) &&
	allp(n, "Int", imp(reach(n) && inner(n), reach(zc(n)) && reach(oc(n)) && par(zc(n)) == n && par(oc(n)) == n && zc(n) != oc(n) && zc(n) != 0 && oc(n) != 0 && dep(zc(n)) == dep(n) + 1 && dep(oc(n)) == dep(n) + 1), pats(reach(n), zc(n))) &&
	allp(n, "Int", imp(reach(n) && n != 0, reach(par(n)) && inner(par(n)) && (zc(par(n)) == n || oc(par(n)) == n) && dep(n) == dep(par(n)) + 1), par(n))
fn treeValues() = allv(f, "Int", pv(0, f) == 0) &&
	allp(n, "Int", f, "Int", imp(reach(n) && inner(n), pv(zc(n), f) == ite(f == ft(n), 1, pv(n, f))), pv(zc(n), f)) &&
	allp(n, "Int", f, "Int", imp(reach(n) && inner(n), pv(oc(n), f) == ite(f == ft(n), 2, pv(n, f))), pv(oc(n), f)) &&
	allp(n, "Int", imp(reach(n) && inner(n), pv(n, ft(n)) == 0), pats(reach(n), ft(n)))
fn tree() = imp(len(nodes) > 0 && validNodes(), treeShape() && treeValues())

// n is c or an ancestor of c
ufun anc(Int, Int) Bool
defn anc: allp(n, "Int", c, "Int", iff(anc(n, c), n == c || c != 0 && anc(n, par(c))), pats(anc(n, c), par(c)))

// every node of the list belongs to the tree
fn allNodes() = all(n, 0, len(nodes), reach(n))

// the values on the path to a node are those of the paths to its ancestors
lemma monotone
	props C05 C06 C07 C08 C17 C19
	requires tree: treeShape() && treeValues()
	ensures mono:
		induct d; 0; len(nodes): allp(n, "Int", c, "Int", imp(reach(c) && dep(c) <= d && anc(n, c), reach(n) && dep(n) <= d), anc(n, c))
		show allp(n, "Int", c, "Int", imp(reach(c) && anc(n, c), reach(n) && dep(n) <= dep(c)), anc(n, c))
		induct d; 0; len(nodes): allp(n, "Int", c, "Int", f, "Int", imp(reach(c) && dep(c) <= d && anc(n, c) && pv(n, f) != 0, pv(c, f) == pv(n, f)), pats(anc(n, c), pv(n, f)))
		show allp(n, "Int", c, "Int", f, "Int", imp(reach(c) && anc(n, c) && pv(n, f) != 0, pv(c, f) == pv(n, f)), pats(anc(n, c), pv(n, f)))
		show allp(n, "Int", c, "Int", f, "Int", imp(reach(c) && anc(n, c) && pv(n, f) != 0, pv(c, f) == pv(n, f)), pats(anc(n, c), pv(c, f)))
// an ancestor of c other than c has a child that is an ancestor of c
lemma descend
	props C05 C06 C07 C08 C17 C19
	requires tree: treeShape() && treeValues()
	ensures down:
		induct d; 0; len(nodes): allp(n, "Int", c, "Int", imp(reach(c) && dep(c) <= d && anc(n, c), n == c || inner(n) && (anc(zc(n), c) || anc(oc(n), c))), anc(n, c))
		show allp(n, "Int", c, "Int", imp(reach(c) && anc(n, c), n == c || inner(n) && (anc(zc(n), c) || anc(oc(n), c))), anc(n, c))
// every decided feature is decided at an ancestor
lemma decided
	props C05 C06 C07 C08 C17 C19
	requires tree: treeShape() && treeValues()
	ensures where:
		induct d; 0; len(nodes): allp(c, "Int", f, "Int", imp(reach(c) && dep(c) <= d && pv(c, f) != 0, ex(n, 0, len(nodes), anc(n, c) && n != c && inner(n) && ft(n) == f)), pv(c, f))
		show allp(c, "Int", f, "Int", imp(reach(c) && pv(c, f) != 0, ex(n, 0, len(nodes), anc(n, c) && n != c && inner(n) && ft(n) == f)), pv(c, f))
// the root is an ancestor of every node
lemma rooted
	props C05 C06 C07 C08 C17 C19
	requires tree: treeShape() && treeValues()
	ensures root:
		induct d; 0; len(nodes): allp(c, "Int", imp(reach(c) && dep(c) <= d, anc(0, c)), reach(c))
		show allp(c, "Int", imp(reach(c), anc(0, c)), reach(c))
