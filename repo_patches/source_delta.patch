From 9b4cd0a6125fdb1b313003141eedaddda738843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 01/12] fix: leh.ConstVarConst names its distance variables
 after the constant they measure

---
 query/extensions/leh/const_var_const.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 9d6a61a..a879d89 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From f30d596d60d84a218f534ba679d9fa2d46cf2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 02/12] fix: leh variable must be full also when the distance
 bound is trivial

---
 query/extensions/leh/const_const_var.go | 2 +-
 query/extensions/leh/const_var_const.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index 659ca26..e1fe6df 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -52,7 +52,7 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == 0 {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index a879d89..f12904c 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -52,7 +52,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == dim {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-- 
2.43.0


From f391bf4e89b8b73cb2a214b73e206c6d247623c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 03/12] fix: hepr encodings with an empty preference are
 trivially true instead of panicking

---
 query/extensions/hepr/const_var.go | 4 ++++
 query/extensions/hepr/var_const.go | 4 ++++
 query/extensions/hepr/var_var.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 08b801f..6e1f9f2 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -50,6 +50,10 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
+	if plen == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	idx := d.Preference[plen-1]
 
 	if sc.Val[idx] != query.BOT {
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index a1df829..aa8c2d0 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -50,6 +50,10 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
+	if plen == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	idx := d.Preference[plen-1]
 
 	if sc.Val[idx] != query.BOT {
diff --git a/query/extensions/hepr/var_var.go b/query/extensions/hepr/var_var.go
index 6d437d2..966cefa 100644
--- a/query/extensions/hepr/var_var.go
+++ b/query/extensions/hepr/var_var.go
@@ -41,6 +41,10 @@ func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
+	if plen == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	idx := d.Preference[plen-1]
 
 	ncnf = ncnf.AppendConsistency(
-- 
2.43.0


From 0bbdb2942779792f770588a804d601a065e99d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 04/12] fix: hepr preference names separate feature indexes

---
 query/extensions/hepr/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 9735deb..50a16e3 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -30,6 +30,7 @@ func prefVar(pref []int) query.QVar {
 
 	for _, idx := range pref {
 		sb.WriteString(strconv.Itoa(idx))
+		sb.WriteRune(44) // ","
 	}
 
 	return query.QVar(sb.String())
-- 
2.43.0


From 3c6bd10745cdced6be5bd58a6069bd4bf83ecc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 05/12] fix: ComputeOptim reports a failure to create its
 temporary file

---
 compute/optimum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/optimum.go b/compute/optimum.go
index 43f14c2..b81cb22 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -47,7 +47,7 @@ func ComputeOptim(
 
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
-		return OptOutput{}, nil
+		return OptOutput{}, err
 	}
 	defer func() {
 		tmpfp.Close()
-- 
2.43.0


From f7c69b7ff7c5746365e93bc7453214b9ba035646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 06/12] fix: resetting a scoper also forgets the scope level of
 its variables

---
 query/scoper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/query/scoper.go b/query/scoper.go
index b907a91..5059749 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -118,4 +118,5 @@ func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
 
 func (s *baseScoper) Reset() {
 	s.scopes = nil
+	s.vars = make(map[QVar]int)
 }
-- 
2.43.0


From 69ae9a12d05a75271d4e6bee620d2d0809f15043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 07/12] fix: WithVar adds consistency clauses also when the
 context already knows its variable

---
 query/logop/with_var.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/query/logop/with_var.go b/query/logop/with_var.go
index c6e0939..03c7fc9 100644
--- a/query/logop/with_var.go
+++ b/query/logop/with_var.go
@@ -62,11 +62,6 @@ func (w WithVar) encodeI(ctx query.QContext) cnf.CNF {
 
 	v := ctx.ScopeVar(w.I)
 
-	// Lets not add consistency clauses twice.
-	if ctx.CNFVarExists(v, 0, int(query.BOT)) {
-		return ncnf
-	}
-
 	// Every feature must have at least one value
 	reqAllFeats := []cnf.Clause{}
 	for i := 0; i < ctx.Dim(); i++ {
-- 
2.43.0


From 33153ac310599f2f3d3d718ed12590cde73e2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 08/12] fix: negation does not write into the spare capacity of
 the clauses it negates

---
 cnf/cnf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 2f7b4a6..9691c83 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -125,7 +125,10 @@ func (c *CNF) tseytinNegation(tv int) {
 				clauses = append(clauses, Clause{-lit, -auxv})
 			}
 			// Oposite implication.
-			clauses = append(clauses, append(clause, auxv))
+			clauses = append(
+				clauses,
+				append(clause[:len(clause):len(clause)], auxv),
+			)
 		}
 
 		// Literals representing negated clauses.
-- 
2.43.0


From fd987438b10b5359939aa0248deadcb64828b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 09/12] fix: isnode.Var and allcomp.Var do not share variables
 with different meanings

---
 query/predicates/isnode/var.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 5f7277a..a45ea96 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -36,7 +36,8 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	svReach := f.ReachNodeVarGen(sv)
 
 	// We will encode that sv reaches a node with index i as the triple
-	// (svReach, 0, i).
+	// (svReach, 1, i). Index 0 is left to the reachability through bottom values
+	// that allcomp.Var encodes, as both may be given the same generator.
 
 	// Every feature that is not BOT must be decided on
 	fcl := []cnf.Clause{}
@@ -49,13 +50,13 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 0, i))
+		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
 	}
 
 	ncnf = ncnf.AppendSemantics(fcl...)
 
 	// Root is always reachable
-	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})
+	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 1, 0)})
 
 	// Add non-bot progapation clauses
 	for i, node := range nodes {
@@ -65,28 +66,28 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.ZChild),
 			},
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ONE)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.OChild),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.OChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, node.OChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ONE)),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
 			},
 		)
-- 
2.43.0


From 730e6f192c2d298e50fa38d26a717a46707adb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 10/12] fix: dfs encodings over an empty model return an error
 instead of panicking

---
 query/extensions/dfs/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query/extensions/dfs/utils.go b/query/extensions/dfs/utils.go
index 16da7b4..e71d9b7 100644
--- a/query/extensions/dfs/utils.go
+++ b/query/extensions/dfs/utils.go
@@ -12,6 +12,9 @@ func leafsAsConsts(
 	dim int,
 	nodes []query.Node,
 ) ([]query.QConst, []query.QConst, error) {
+	if len(nodes) == 0 {
+		return nil, nil, nil
+	}
 	for _, n := range nodes {
 		if err := validateNode(n, dim, len(nodes)); err != nil {
 			return nil, nil, err
-- 
2.43.0


From f7f07c43ae816dc435e81dbbcffd9b45830a4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 11/12] fix: solver value lines are read whatever white space
 separates their literals

---
 compute/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 9286a3e..bee840d 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -149,7 +149,7 @@ func varValueFromBytes(
 		if len(line) == 0 || line[0] != byte(118) {
 			continue
 		}
-		for _, vb := range bytes.Split(line[2:], []byte(" ")) {
+		for _, vb := range bytes.Fields(line[1:]) {
 			val, err := strconv.Atoi(string(vb))
 			if err != nil {
 				return query.QConst{}, err
-- 
2.43.0


From 3089f69c8ea34244ceaedc3518094d906dcf9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 12/12] fix: extending a formula does not write into the spare
 capacity of its operands' clause lists

Clause lists of formulas share storage with the slices passed in and with
formulas derived from them, so appending in place could overwrite clauses of
other formulas. Guarded quantification gathers the clauses of its instances
first, which keeps it linear.
---
 cnf/cnf.go                   | 6 +++---
 query/logop/forallguarded.go | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 9691c83..adb7912 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -136,7 +136,7 @@ func (c *CNF) tseytinNegation(tv int) {
 	}
 
 	// If no errors were found then update CNF.
-	c.cClauses = append(c.cClauses, clauses...)
+	c.cClauses = append(c.cClauses[:len(c.cClauses):len(c.cClauses)], clauses...)
 	c.tv = tv
 
 	// Generate bidirectional implication from new enc literal and enclits.
@@ -176,7 +176,7 @@ func (c CNF) AppendSemantics(clauses ...Clause) CNF {
 	topv := maxInt(c.tv, maxVar(clauses))
 	return CNF{
 		tv:       topv,
-		sClauses: append(c.sClauses, clauses...),
+		sClauses: append(c.sClauses[:len(c.sClauses):len(c.sClauses)], clauses...),
 		cClauses: c.cClauses,
 	}
 }
@@ -187,7 +187,7 @@ func (c CNF) AppendConsistency(clauses ...Clause) CNF {
 	return CNF{
 		tv:       topv,
 		sClauses: c.sClauses,
-		cClauses: append(c.cClauses, clauses...),
+		cClauses: append(c.cClauses[:len(c.cClauses):len(c.cClauses)], clauses...),
 	}
 }
 
diff --git a/query/logop/forallguarded.go b/query/logop/forallguarded.go
index 4c4240b..17d3acf 100644
--- a/query/logop/forallguarded.go
+++ b/query/logop/forallguarded.go
@@ -167,6 +167,7 @@ func (f ForAllGuarded) buildEncoding(
 	var cv *[]query.FeatV
 	var iter nodeAsValuesIter
 	var icnf cnf.CNF
+	var sClauses, cClauses []cnf.Clause
 
 	ctx.AddScope(f.I.ID)
 	defer func() {
@@ -191,10 +192,15 @@ func (f ForAllGuarded) buildEncoding(
 			return cnf.CNF{}, err
 		}
 
-		ncnf = ncnf.Conjunction(icnf)
+		isc, icc := icnf.Clauses()
+		sClauses = append(sClauses, isc...)
+		cClauses = append(cClauses, icc...)
 
 		i += 1
 	}
 
+	ncnf = ncnf.AppendSemantics(sClauses...)
+	ncnf = ncnf.AppendConsistency(cClauses...)
+
 	return ncnf, err
 }
-- 
2.43.0

