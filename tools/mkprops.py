#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],state=state or [],hook_needed=None)))
EX='query/extensions/'; PR='query/predicates/'
NS=" The 1447 truth-table tests need a solver at /kissat and do not run here; even where they run they enumerate dimension 3 only."
p('C01','Subsumption, consistency and fullness are encoded exactly',
 "For every model, every dimension, every combination of instance constants and instance variables and every consistent assignment of the variables, the formula produced for subsumption is satisfied exactly when every defined feature of the first instance has the same value in the second; for consistency exactly when no feature is defined in both with different values; for fullness exactly when no feature is undefined. This holds with constants given directly or supplied by an enclosing guarded quantifier, and the formula constrains nothing else.",
 ['inputs'],"all dimensions >= 1, all constants over {bottom,0,1} of that dimension, all variable assignments with exactly one value per feature, all scopes",
 "Exactness quantifies over every dimension, constant and assignment."+NS,
 [PR+'subsumption/*.go',EX+'cons/*.go',EX+'full/*.go'],
 [('per-feature clauses',PR+'subsumption/var_var.go:VarVar.Encoding'),('opposite-value clauses',EX+'cons/var_var.go:VarVar.Encoding'),('no-bottom clauses',EX+'full/var.go:Var.Encoding')],
 ['Encoding(ctx) of each variant: semantic and consistency clauses'])
p('C02','The level comparison is encoded exactly',
 "For every dimension, every mix of constants and variables and every consistent assignment, the less-or-equal-level formula is satisfied exactly when the first instance has at least as many undefined features as the second. Its auxiliary counting constraints never exclude an assignment of the instance variables: they can always be completed.",
 ['inputs'],"all dimensions >= 1, constants, assignments of the instance variables and of the auxiliary variables",
 "The counting recurrence must be right at every position and count for every dimension; an off-by-one at a boundary only shows at particular counts."+NS,
 [PR+'lel/*.go'],[('counting clauses',PR+'lel/utils.go:varBotCountClauses'),('level comparison',PR+'lel/var_var.go:VarVar.Encoding')],['Encoding(ctx)'])
p('C03','The Hamming distance comparison is encoded exactly',
 "For every dimension, every mix of constants and variables in the three positions and every consistent assignment, the distance formula is satisfied exactly when all three instances are full and the Hamming distance between the first and the second is at most the one between the first and the third. Its auxiliary constraints can always be completed and never exclude an assignment of the instance variables, full or not.",
 ['inputs'],"all dimensions >= 1, all eight constant/variable combinations, all constants, all assignments",
 "Eight variants share counting recurrences that must be right at every position, count and boundary distance (0 and the dimension)."+NS,
 [EX+'leh/*.go'],[('distance recurrences',EX+'leh/utils.go:hammingDistVC, hammingDistVV'),('feature equality',EX+'leh/utils.go:fullVarEqualClauses'),('distance comparison',EX+'leh/*_*_*.go')],['Encoding(ctx)'])
p('C04','The preference rank comparison is encoded exactly',
 "For every dimension, every duplicate-free list of feature indexes (also empty, of length one, or not covering all features), every mix of constants and variables and every consistent assignment, the preference formula is satisfied exactly when at the first listed feature where exactly one of the two instances is undefined it is the second one that is, or there is no such feature. Its auxiliary constraints can always be completed and never exclude an assignment of the instance variables.",
 ['inputs'],"all dimensions, all valid preference lists and orders, constants, assignments",
 "A recurrence over an arbitrary permutation prefix; tests use one or two fixed preference lists."+NS,
 [EX+'hepr/*.go'],[('rank recurrence',EX+'hepr/var_var.go, var_const.go, const_var.go'),('preference validation and naming',EX+'hepr/util.go')],['Encoding(ctx)'])
p('C05','The Node predicate holds exactly for the nodes of the tree',
 "For every decision tree and every instance, constant or variable, the node formula is satisfied exactly when the instance is the partial instance of some node of the tree: it is defined, with the value the path takes, on every feature decided on the way to that node and undefined on every other feature. For the variable form the auxiliary reachability constraints can always be completed.",
 ['inputs'],"all finite rooted binary decision trees (children indexes in any order) of any depth and dimension that decide a feature at most once per path, all instances and assignments",
 "Quantifies over all trees and all instances; tests use one fixed tree."+NS,
 [PR+'isnode/*.go'],[('walk from the root',PR+'isnode/const.go:Const.Encoding'),('reachability clauses',PR+'isnode/var.go:Var.Encoding')],['Encoding(ctx)'])
p('C06','All-completions is encoded exactly',
 "For every decision tree, every class and every instance, constant or variable, the all-completions formula is satisfied exactly when every full instance that extends the given one is classified by the tree with that class. For the variable form the auxiliary reachability constraints can always be completed.",
 ['inputs'],"all finite rooted binary decision trees (children indexes in any order) that decide a feature at most once per path, all instances, both classes, all assignments",
 "Quantifies over all trees and all exponentially many completions; tests use one fixed tree."+NS,
 [EX+'allcomp/*.go'],[('search over compatible branches',EX+'allcomp/const.go:Const.Encoding'),('reachability clauses',EX+'allcomp/var.go:Var.Encoding')],['Encoding(ctx)'])
p('C07','Determinant feature sets are encoded exactly',
 "For every decision tree and every instance, constant or variable, the determinant-feature-set formula is satisfied exactly when fixing the instance's defined features, to whatever values, always fixes the classification: any two full instances that agree on those features get the same class. Only the set of defined features matters, not their values.",
 ['inputs'],"all finite rooted binary decision trees (children indexes in any order) that decide a feature at most once per path, all instances and assignments",
 "Quantifies over all trees and all pairs of completions; tests use one fixed tree."+NS,
 [EX+'dfs/*.go'],[('leaf enumeration',EX+'dfs/utils.go:leafsAsConsts'),('leaf pair comparison',EX+'dfs/const.go:leafCompare, '+EX+'dfs/var.go:notAWitnessClause')],['Encoding(ctx)'])
p('C08','Connectives and variable introduction preserve meaning',
 "The formula produced for a negation, conjunction, disjunction or variable introduction is satisfiable under a given assignment of the instance variables exactly when the operands' formulas combined with that connective are true under it, at any nesting depth and also when the context was already used for other formulas. An introduced variable takes exactly one of the three values in every feature, auxiliary variables created along the way are distinct from every variable known to the context before or later, and an operand's error is reported.",
 ['inputs','histories'],"all operands, all nestings, all contexts including ones with prior use, all assignments",
 "Nesting depth, operand shapes and variable histories are unbounded; freshness of auxiliary variables depends on everything encoded before and after."+NS,
 ['query/logop/and.go','query/logop/or.go','query/logop/not.go','query/logop/with_var.go','cnf/cnf.go','query/varmanager.go'],
 [('De Morgan over negated operands','query/logop/or.go:Or.buildEncoding'),('auxiliary variable bookkeeping','query/logop/not.go:Not.buildEncoding, query/varmanager.go:UpdateTopV'),('one value per feature','query/logop/with_var.go:encodeI')],['Encoding(ctx)'])
p('C09','Guarded quantification ranges over exactly the nodes of the tree',
 "For every decision tree the guarded universal formula is the conjunction of its body instantiated once for each node of the tree, internal nodes, leaves and root included, with the quantified constant equal to that node's partial instance. Variables introduced in the body are separate for each instantiation while variables introduced outside are shared, also under nesting, and when encoding ends, normally or with an error, the context's scope nesting is what it was before.",
 ['inputs','histories'],"all finite rooted binary decision trees (children indexes in any order) that decide a feature at most once per path, all bodies (including bodies that fail), all nestings",
 "Quantifies over all trees, bodies and nestings; tests use one fixed tree and shallow nestings."+NS,
 ['query/logop/forallguarded.go','query/scoper.go'],
 [('tree walk','query/logop/forallguarded.go:nodeAsValuesIter.Next'),('one conjunct per node, scope push and pop','query/logop/forallguarded.go:ForAllGuarded.buildEncoding'),('scoped names','query/scoper.go')],['Encoding(ctx)','ScopeConst/ScopeVar seen by the body'])
p('C10','CNF operations denote the logical operations',
 "Under any assignment that satisfies the consistency clauses of the result, the negation of a formula is satisfied exactly when the semantic clauses of the formula are not, for every clause shape including none, empty and single-literal clauses; consistency clauses are kept and never negated. Every assignment of the old variables extends to the new ones, which are numbered above both the formula's top variable and the given one; conjoining and extending yield exactly the union of the clauses. The reported top variable is always at least every variable occurring in the formula.",
 ['inputs'],"all formulas (numbers of clauses, clause lengths, literals), all optional top values, all assignments",
 "Equivalence quantifies over all formulas and assignments; the tests compare a few literal outputs.",
 ['cnf/cnf.go'],[('Tseytin negation','cnf/cnf.go:tseytinNegation, addNegationIFFClauses'),('top variable','cnf/cnf.go:maxVar, AppendSemantics, AppendConsistency')],['Negate, Conjunction, AppendSemantics, AppendConsistency, FromClauses, TopV, Clauses'])
p('C11','CNF variable numbers are positive, unique and stable',
 "Through any sequence of operations of a context, distinct variable triples always get distinct positive numbers, the same triple always gets the same number until a reset, existence is reported exactly for the triples already numbered, and a new number exceeds every number assigned or reserved before. Raising the top value reserves the numbers up to it and never lowers it, refusing a smaller one; a reset forgets everything.",
 ['histories'],"all finite sequences of the variable manager's operations with all arguments",
 "A property of all operation histories; tests run a few short ones.",
 ['query/varmanager.go','query/context.go'],[('numbering','query/varmanager.go:CNFVar'),('reservation','query/varmanager.go:UpdateTopV')],['CNFVar, CNFVarExists, TopV, UpdateTopV, Reset'],
 [dict(name='topv',meaning='largest number assigned or reserved',where='query/varmanager.go:baseVarManager')])
p('C12','DIMACS output is faithful',
 "For every formula the DIMACS text states as its variable count the formula's top variable and as its clause count the number of clauses that follow, and then lists every semantic and every consistency clause exactly once, literal by literal in order, each terminated by 0, and nothing else. Writing to a file yields the same bytes as serialising to memory, or an error if the file could not be created or written.",
 ['inputs','fault_sequences'],"all formulas; all outcomes of file creation and writes",
 "Quantifies over all formulas and write failures; one literal output is tested.",
 ['cnf/cnf.go'],[('serialisation','cnf/cnf.go:ToBytes, ToFile, clauseToDIMACS')],['ToBytes, ToFile'])
p('C13','Scoped names separate and constants follow their quantifier',
 "Under any nesting of scopes, a variable's scoped name depends exactly on its own name and on the targets and iteration indexes of the scopes that were open when it was introduced, so that, for names free of the reserved separator, two variables or two instantiations never share a name while repeated lookups agree. A constant whose identifier is targeted by an open scope takes that scope's current value and every other constant is returned unchanged and marked unscoped. Closing a scope forgets the variables introduced in it and fails when none is open, setting a value needs an open scope and affects the innermost one only, and a reset restores the initial state.",
 ['histories'],"all sequences of scoper operations, all names free of the unit separator",
 "A property of all operation histories; tests run a few short ones.",
 ['query/scoper.go','query/context.go'],[('name building','query/scoper.go:ScopeVar'),('level bookkeeping','query/scoper.go:AddVar, PopScope, Reset'),('constant substitution','query/scoper.go:ScopeConst')],['ScopeVar, AddVar, ScopeConst, AddScope, PopScope, SetScope, Reset'])
p('C14','Optimisation returns an optimal answer',
 "For every formula, every strict order and every solver that answers correctly, an instance is reported found exactly when some instance satisfies the formula, and the reported instance then satisfies it and no instance satisfying it is strictly better in the order. Any error of the solver, the encodings or the environment is returned as an error and never as an answer, the reported number of calls equals the solver queries made whenever an answer is given, and the search stops after finitely many queries.",
 ['inputs','fault_sequences'],"all formula and order constructors, all correct solvers and all of their error outcomes at any step",
 "Quantifies over orders, solver answers and failures at every step; these tests need a solver binary and do not run here.",
 ['compute/optimum.go'],[('improvement loop','compute/optimum.go:ComputeOptim')],['ComputeOptim result','calls received by the solver'])
p('C15','Boolean combinations of queries evaluate correctly',
 "An and-combination is satisfiable exactly when all its elements are and an or-combination exactly when at least one is, for any number of elements including none and any nesting, and an atom's answer is the solver's answer, inverted exactly when the atom is marked negated. An error other than unsatisfiability, at whatever element it is reached, is returned as an error together with a negative answer, and unsatisfiability is never reported as an error.",
 ['inputs','fault_sequences'],"all combinations, all element outcomes (true, false, error, wrapped unsatisfiability)",
 "Quantifies over all combinations and outcome sequences; the tests need a solver binary and do not run here.",
 ['compute/boolcomb.go'],[('combinators','compute/boolcomb.go:AndCombinator.Sat, OrCombinator.Sat'),('negated atoms','compute/boolcomb.go:QDTFAtom.Sat')],['Sat result'])
p('C16','Solver runs are interpreted correctly',
 "A query step hands the solver exactly the query's formula, reports success exactly for exit status 10, unsatisfiability exactly for 20 and an error for every other outcome including a failed start, encoding or write, and keeps the last satisfying output available when a later step does not succeed. Reading a variable's value returns for each feature the value whose propositional variable is true in the solver's value lines, whatever their order, line breaks and spacing, and reports an error for malformed value lines. Temporary files are removed on every path.",
 ['inputs','fault_sequences'],"all queries, all exit statuses and process failures, all outputs in DIMACS form, all failures of the file operations",
 "Quantifies over solver outputs, statuses and failures; no test of this part runs here.",
 ['compute/solver.go'],[('run and classify','compute/solver.go:binSolver.Step, runSolver'),('decode','compute/solver.go:varValueFromBytes, Values')],['Step error','Values result'])
p('C17','Invalid input is refused with an error',
 "Encoding any formula with a nil context, a nil sub-formula, a missing name generator, a constant whose length is not the model's dimension, or a preference list with an out-of-range or repeated index returns an error and never a formula or a panic. Formulas over an empty model that depend on the tree, and determinant-set and guarded formulas over trees with out-of-range features or children, likewise return an error. Valid input never yields an error or a panic.",
 ['inputs'],"all component types and all invalid arguments of the listed kinds, alone or nested below other components",
 "Quantifies over all components, dimensions, argument positions and nestings.",
 ['query/logop/*.go',PR+'*/*.go',EX+'*/*.go','query/instances.go'],
 [('argument guards','Encoding of every component'),('dimension check','query/instances.go:ValidateConstsDim'),('preference check',EX+'hepr/util.go:validatePref'),('tree check','query/logop/forallguarded.go:validateNode, '+EX+'dfs/utils.go:validateNode')],['Encoding(ctx) error'])
p('C18','CNF operations leave their operands intact',
 "Negating, conjoining, extending or serialising a formula leaves the clauses and the top variable of every operand formula, and the contents of every clause slice passed in, exactly as they were, whatever spare capacity or sharing their storage has. The shared trivially true and trivially false formulas are never modified.",
 ['inputs','histories'],"all formulas, clause slices with arbitrary capacity and sharing, all operations",
 "Aliasing damage needs particular capacities and sharing that literal test inputs do not have.",
 ['cnf/cnf.go'],[('value receivers and appends','cnf/cnf.go:AppendSemantics, AppendConsistency, Conjunction, Negate, tseytinNegation')],['Clauses(), TopV() of the operands after the call'])
p('C19','Formulas of different components never interfere',
 "Encoding several formulas in one context and joining their clauses never changes what any of them means: auxiliary variables are shared between two components only when both give them the same meaning. This holds for all mixes of component kinds, constants, preference lists and scopes, given name generators that are injective and kept apart as documented and names that do not imitate generated ones.",
 ['inputs','histories'],"all pairs and mixes of components in one context, all constants, preference lists and scopes",
 "Quantifies over all pairs of components and arguments; every test encodes components of one kind once.",
 [PR+'lel/*.go',PR+'isnode/var.go',EX+'leh/*.go',EX+'hepr/*.go',EX+'allcomp/var.go','query/instances.go'],
 [('generated names','CountVarGen, HammingDistanceVarGen, EqualFeatureVarGen, FeaturePreferenceRankVarGen, ReachNodeVarGen'),('constant and preference renderings','query/instances.go:AsString, '+EX+'hepr/util.go:prefVar')],['Encoding(ctx) of two components in one context'])
import os
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
