TECH = "contract-based deductive verification (govc: contracts on the real Go code, SMT-discharged obligations)"
COMMON = ("Trusted: govc's translation of go/ssa to SMT, the solvers, the assumed interface and library contracts listed in the evidence, mathematical integers. "
          "The concrete search that runs beside the proof is bounded and never counted as proved.")
CLAIMED = {
 "C01": "Proof, for every dimension, constant, variable and assignment, that each Encoding of subsumption, cons and full returns clauses equivalent to its meaning.",
 "C02": "Proof, for every dimension, constant, variable and assignment, of the counting encodings and of the level comparison; the counting clauses can always be completed.",
 "C03": "Proof of all eight distance encodings for every dimension, including that the auxiliary clauses can always be completed.",
 "C04": "Proof of all four preference encodings for every dimension and every preference list, including that the auxiliary clauses can always be completed.",
 "C05": "Proof, for every decision tree in any numbering of its nodes, every instance and every assignment, of the constant and the variable form, including that the auxiliary reachability clauses can always be completed.",
 "C06": "Proof, for every decision tree in any numbering of its nodes, both classes, every instance and every assignment, of the constant and the variable form, stated over all completions of the instance; the auxiliary reachability clauses can always be completed. Termination of the search of the constant form is not proved.",
 "C07": "Proof, for every decision tree in any numbering of its nodes, every instance and every assignment, of the constant and the variable form, stated over all pairs of full instances, with the enumeration of the leaves. Termination of the walk over the tree is not proved.",
 "C10": "Proof, for every formula and every clause shape, that negation, conjunction and the append operations denote the logical operations, with the numbering of the new variables.",
 "C11": "Proof that every operation of a context keeps the numbering invariant and does exactly what is stated, so that it holds after any sequence of operations.",
 "C12": "Proof, for every formula, that the serialised text is exactly the header and the clauses in order, and that the file holds the same bytes or an error is returned.",
 "C14": "Proof, for every formula, every strict order and every solver that satisfies the solver contract, with every outcome of every solver call and file operation: of both directions of found, of the answer satisfying the formula with nothing better, of the errors, of the number of calls and of termination (the rank of the instance in the order decreases). The contexts are taken to have no open scope, and the meaning of WithVar and And is that proved under C08.",
 "C15": "Proof, for combinations of any number of elements that satisfy the element contract, which the combinations and the atom are proved to satisfy, so that it holds at any nesting depth, and for every outcome at every element: of the answer, of every error being returned with a negative answer and of unsatisfiability never being an error.",
 "C16": "Proof, for every query, every process outcome, every output and every outcome of every file operation, of what the solver is given, of the classification of its status, of the kept output, of the removal of the temporary file, and that the values read are those the value lines state, in any order, line breaks and spacing, with exactly the malformed lines refused. Assumed: the stated contracts on running a process, files, bytes.Split, bytes.Fields and strconv.Atoi, an output that says for no variable both values, and encodings that never fail with the error for unsatisfiability.",
 "C17": "Proof, for every input of every encoder under contract, of exactly when an error is returned (for determinant sets and guarded formulas: of the stated refusals, and of no error on valid input), and that no index, nil or conversion panic is reachable. For isnode and allcomp the nodes are assumed valid. Termination of the walks over the tree is not proved.",
 "C18": "Proof, with ownership of slice storage tracked (spare capacity and sharing included), that no CNF operation writes into storage it does not own and that every operand and package-level formula keeps its contents.",
 "C08": "Proof for Not, And, Or and WithVar over any operands that satisfy the operand contract, which every encoder under contract is proved to satisfy, so that it holds at any nesting depth.",
 "C09": "Proof, for every decision tree and every body that satisfies the operand contract, that the walk visits each node exactly once with its partial instance, of the conjunction, the scope handling and the errors. Termination of the walk over the whole tree is not proved.",
 "C13": "Proof of every scope operation of a context, and of the separation of names given that splitting a name at its separator recovers its parts.",
 "C19": "Proof, for every formula under contract, that its auxiliary clauses hold whenever every auxiliary variable has the meaning its name stands for, one meaning a name across all components, and that all names can have their meanings at once whatever values the instance variables have; with the numbering, the reserved variables of negation and the connectives. Assumed: name generators and renderings are injective and kept apart, as the property states.",
}
CAUGHT = {}
for _s in ("c01-unscoped-operand","c02-counter-gap","c03-overflow-count","c04-skip-middle","c10-negate-top","c11-stale-last","c12-stale-file","c13-glued-index","c18-repeated-literal","c08-or-shared-aux","c09-leaked-scope","c05-skip-undecided","c05-first-decider","c06-feature-once","c06-lost-bottom","c07-stale-path","c07-first-common","c17-either-gen","c17-apart-repeat","c17-last-child","c19-swapped-sides","c19-shared-reach","c19-unscoped-count","c14-early-reset","c14-late-error","c14-short-cap","c15-wrapped-unsat","c15-late-error","c15-negated-error","c16-lost-output","c16-temp-leak","c16-split-values","c16-silent-failure"):
    CAUGHT[_s] = "check of %s: failed obligations and a failing input" % _s[:3].upper()
NOTYET = "Contracts for the functions it depends on are not written yet."
NA = {("C%02d" % k): NOTYET for k in range(5, 20) if "C%02d" % k not in CLAIMED}
