CLAIMED = []
NOT_APPLICABLE = []
def C(id, title, statement, over, quant, why, files, mech, technique, note):
    CLAIMED.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))
def N(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))

C("C01", "A cancel request ends the computation, and is reported as such",
  "When the handler of a computation answers an event with 'do not resume', no further work event is posted for that computation, every enclosing computation ends too, and the caller gets a state that says cancelled with that event as its cause - never a success state. Partial results of the cancelled step are not used to compute anything that is reported as a result, and a state returned by a sub-computation is never dropped.",
  ["inputs", "schedules", "fault_sequences"],
  "every public computation that takes a handler, every event it posts, every point at which a handler may say stop, every path from there to the return",
  "A test cancels at a few chosen events of a few inputs; a cancel can arrive at any of the poll sites and must survive every layer between that site and the caller.",
  ["handler/handler.go", "sat/core.go", "sat/solver.go", "sat/backbone.go", "sat/optimizer_function.go", "maxsat/algorithm.go", "maxsat/solver.go", "model/iter/iteration.go", "simplification/subsumption.go", "simplification/advanced.go", "bdd/kernel.go", "dnnf/compiler.go", "normalform/cnf.go", "normalform/factorization.go", "primeimplicant/minimal.go", "explanation/mus/mus.go", "explanation/smus/smus.go"],
  [("Handler.ShouldResume", "handler/handler.go"), ("State / Cancelation", "handler/handler.go"), ("poll sites", "all packages with computations")],
  "path-sensitive abstract interpretation of handler polls and cancellation states over SSA",
  "Decides, for every poll site and every call returning a state, what every path from a cancellation does. Trusts the SSA construction and the table of wait-free clean-up calls; recursion through data is followed one level. Does not decide how soon a poll is reached.")
C("C02", "The caller's handler governs the whole computation",
  "A computation that is given a handler hands that very handler to every sub-computation that can be long, runs none of them under another handler or none, and asks it every kind of event the computation is documented to post. Its start event is posted before any other event and any other work of that computation, so that a handler which refuses the start event stops it before it does anything.",
  ["inputs", "configurations", "schedules"],
  "every public function and method that takes a handler (or a configuration with one), every sub-computation it reaches, every event type",
  "Tests use a handful of handlers on a handful of inputs and mostly check that cancelling works somewhere, not that no step runs uncontrolled.",
  ["handler/handler.go", "event/event.go", "sat/solver.go", "sat/optimizer_function.go", "maxsat/solver.go", "model/iter/iteration.go", "model/enum/enum.go", "model/count/count.go", "normalform/cnf.go", "normalform/factorization.go", "simplification/advanced.go", "primeimplicant/minimal.go", "bdd/builder.go", "dnnf/compiler.go", "explanation/mus/mus.go", "explanation/smus/smus.go"],
  [("handler parameters", "all ...WithHandler functions"), ("event set per entry point", "event/event.go")],
  "interprocedural dataflow of handler values, call-graph reachability of events, dominance of start events",
  "Decides forwarding at every call site with a handler in scope, the set of events each entry point can ask (against a reviewed table), and that the start event dominates. Trusts the table of entry points and events in checker/tables/events.json.")
C("C03", "Limiting handlers stop exactly at their limit and start afresh each time",
  "The handlers that limit a computation by a count (distributions and clauses of a factorization, nodes of a BDD, models of an enumeration) count each of their events once and nothing else, request the cancel exactly when the documented limit is reached respectively exceeded, and treat the documented 'unlimited' value as no limit. When the same handler is used for another computation, the start event of that computation resets it completely, also after it has cancelled. All events of the library are distinguishable from one another.",
  ["histories", "inputs"],
  "every sequence of events posted to such a handler, every limit",
  "Tests run each handler on one or two computations with one limit; reuse after a cancel and exact boundary values are not sampled.",
  ["normalform/handler.go", "bdd/handler.go", "model/iter/handler.go", "handler/handler.go", "event/event.go"],
  [("FactorizationHandler.ShouldResume", "normalform/handler.go"), ("NodesHandler.ShouldResume", "bdd/handler.go"), ("LimitHandler.ShouldResume", "model/iter/handler.go"), ("event values", "event/event.go")],
  "path-sensitive affine dataflow over handler fields per event, ordering abstraction of count against limit",
  "Decides for every event of the library what each path of each limiting handler does to its counters and what it answers, for all orderings of count and limit. Trusts the specification table of the three limiting handlers.")
C("C04", "A query leaves the solver as it found it",
  "Asking the SAT solver a question - a SAT call with additional literals, formulas or propositions, a backbone, an optimization, a model iteration or enumeration, unit-propagated literals - leaves its constraints, its valid states and its modes exactly as they were, whatever the answer and also when the question is cancelled; assumptions of one call never reach the next. The same holds for a MaxSAT solve. (Variables that only the question mentions may stay known.)",
  ["inputs", "histories", "fault_sequences"],
  "every query kind, every way out of it (satisfiable, unsatisfiable, cancelled at any event, error), every sequence of queries",
  "A test asks one question and compares one later answer; a leak only shows after a particular way out of a particular query, on a later question that the leaked clauses happen to change.",
  ["sat/call.go", "sat/core.go", "sat/solver.go", "sat/backbone.go", "sat/optimizer_function.go", "sat/formulas_on_solver.go", "model/iter/iteration.go", "model/enum/enum.go", "model/count/count.go", "primeimplicant/minimal.go", "explanation/smus/smus.go", "maxsat/algorithm.go"],
  [("callInternal / initCall / finishCall", "sat/call.go"), ("saveState / loadState around queries", "sat/*.go"), ("innerSearch", "maxsat/algorithm.go")],
  "path-sensitive typestate analysis of save/load brackets and per-call fields over SSA, with inlining",
  "Decides that every path of every query that adds to the solver saves before and loads after with that very state, and that per-call fields are cleared on every way out. What loading restores is decided by C05. Variables of assumption literals that become known are accepted.")
C("C05", "Loading a saved state restores the solver exactly",
  "After loading a state, the solver (SAT and MaxSAT) answers every question as it did when the state was saved: every component that adding constraints or solving changes - variables and all per-variable tables, clauses, learnt and unit clauses, names, proof records, costs and weights, encoding caches, the cached MaxSAT result - is back at what the state recorded. Learnt clauses younger than the state are gone. States saved later become invalid, the loaded one and earlier ones stay valid, and an invalid state is refused with an error and changes nothing.",
  ["inputs", "histories"],
  "every sequence of adding, solving, saving and loading on a solver",
  "The tests load a few states on small problems; a component that is not cut back only matters for later constraints that happen to touch it.",
  ["sat/core.go", "sat/core_state.go", "sat/solver.go", "sat/pg_on_solver.go", "maxsat/algorithm.go", "maxsat/solver.go", "maxsat/pg_on_solver.go"],
  [("saveState / loadState", "sat/core.go"), ("saveState / loadState", "maxsat/algorithm.go"), ("learntOnState", "sat/core.go"), ("clearCache", "sat/pg_on_solver.go"), ("Solver.ok (cached result)", "maxsat/solver.go")],
  "must-write dataflow per component, agreement of recorded and restored sizes by symbolic slicing, constant propagation for state validity",
  "Decides for each component that every successful path of loading rewrites it, from the very quantity the state recorded, and that nothing adding can grow is left out; heuristic data (activities, saved phases, statistics) is exempt. Trusts the component table in c05.go, completed automatically with every container the adding functions grow.")
C("C06", "Bad input and failing steps are reported as errors, never swallowed",
  "An operation that can fail says so: when a step it depends on fails (opening, reading or writing a file, scanning a line, parsing a number or a formula, expanding or encoding a constraint, adding a soft formula, finding a variable, loading a state) it returns an error and no success result, also if the step fails in the middle of the input or output. Inputs that an operation is documented to refuse are refused with an error, all others are not. Malformed text - a syntax error, an unknown character, a line with too few tokens or without its final 0 - never crashes a reader and never counts as something else. Files are closed on every way out.",
  ["inputs", "fault_sequences"],
  "every input text, every failing read or write, every formula sort, comparator, bound and weight",
  "Tests feed a few malformed inputs; failures of reads and writes, over-long lines and most refused inputs never occur in them.",
  ["io/dimacs_reader.go", "io/formula_reader.go", "io/dimacs_writer.go", "io/formula_writer.go", "maxsat/reader.go", "parser/propositional_parser.go", "graphical/dot_writer.go", "graphical/mermaid_writer.go", "formula/formula.go", "formula/factory.go", "transformation/substitution.go", "transformation/pure_expansion.go", "explanation/mus/mus.go", "bdd/bdd.go", "bdd/kernel.go", "maxsat/solver.go", "simplification/subsumption.go", "primeimplicant/minimum_implicant.go"],
  [("error results", "all packages"), ("bufio.Scanner.Err", "io, maxsat/reader.go"), ("errorListener", "parser/propositional_parser.go"), ("errorx", "errorx/error.go")],
  "path-sensitive dataflow of error values over SSA, constant propagation for documented refusals, bounds facts for token indices",
  "Decides for every call that returns an error what every path with that error does, and for a table of documented refusals that exactly the refused inputs lead to an error. Dropped errors of calls that cannot fail are a reviewed table (callee per package). Errors of closing a file are out of scope. One known finding: text after a complete formula is ignored by the parser.")
C("C07", "Every comparator means the same in every part",
  "The comparators =, <=, <, >=, > of cardinality and pseudo-Boolean constraints are given one meaning by all parts of the library that interpret them: evaluating and restricting under an assignment, substituting variables or literals, constraints without literals, negating and normalizing, the choice of an at-most-k, at-least-k or exactly-k encoding and of the trivial clauses for the bounds 0, 1 and n (also of incremental constraints), the native at-most clauses of the SAT solver, the expansion of at-most-one and exactly-one, and printing and parsing. Fixed literals move exactly their share to the right-hand side. (The inner encodings of a chosen kind and bound are not part of this property.)",
  ["inputs"],
  "every comparator, every right-hand side, every order of the left-hand side, its bounds and the right-hand side, every number of literals",
  "Tests use a few constraints, mostly with bounds in the middle; a comparator that is off by one at a boundary in one of a dozen places only shows on constraints that hit the boundary there.",
  ["formula/formula.go", "formula/factory.go", "formula/printer.go", "parser/propositional_parser.go", "assignment/evaluate.go", "assignment/restrict.go", "transformation/substitution.go", "transformation/literal_substitution.go", "transformation/pure_expansion.go", "encoding/cc_encoding.go", "encoding/normalize.go", "sat/solver.go"],
  [("CSort.Evaluate", "formula/formula.go"), ("EncodeCCInResult / EncodeIncremental", "encoding/cc_encoding.go"), ("Normalize / NegatePBC", "encoding/normalize.go"), ("Restrict", "assignment/restrict.go"), ("UseAtMostClauses", "sat/solver.go")],
  "conditional constant propagation over SSA under an ordering abstraction of bounds, interprocedural reachability of encodings and clauses",
  "Decides for each comparator and every relative order (with representatives up to distance two) of left-hand side, its minimum and maximum, right-hand side and number of literals which answers, constraints, clauses or encodings remain reachable, against the arithmetic meaning. The encodings of a chosen kind and bound are trusted.")
C("C08", "Formulas, arguments and cached results never change",
  "Once a formula exists, its operands, literals and coefficients stay as they are: nothing the library does later writes to them, reorders them or appends into their storage, and a formula does not share a slice with the caller who built it. The same holds for immutable sets and for cached computation results. A public function does not change the slices, maps, sets, models, assignments and big numbers it is given (except parameters whose purpose is to be filled), and data a public function has handed out or put into a result is not written again by the library.",
  ["inputs", "histories"],
  "every public function, every slice, map, set or big number that reaches a formula, a cache, a result or a caller, every later operation on it",
  "A test checks the answer of one call; a formula, cache entry or argument that was changed behind the scenes shows only in a later, different call that uses the same data.",
  ["formula/factory.go", "formula/set.go", "formula/mutableset.go", "assignment/assignment.go", "model/model.go", "encoding/normalize.go", "encoding/cc_encoding.go", "encoding/pbc_encoding.go", "sat/solver.go", "dnnf/dnnf.go", "dnnf/compiler.go", "bdd/operation.go", "bdd/bdd.go", "model/iter/iteration.go", "simplification/simplifier_rewriter.go"],
  [("CachingFactory node tables", "formula/factory.go"), ("fset / mutableFset", "formula/set.go"), ("PBCOps consumers", "encoding, sat"), ("model counts", "bdd/operation.go, dnnf/dnnf.go")],
  "whole-program flow-insensitive alias and effect analysis (who may write, sort or append into which field's or parameter's storage)",
  "Decides for every parameter of a public function, every storage field of a formula, set or cache, and every returned container whether any call path writes through it. Field based: all objects of a type are one. Writes through function values and by callers outside the library are not seen; accessors of formulas do hand out internal slices.")
C("C09", "A cache answers only the question it was asked",
  "A remembered answer is only ever given to the question it was computed for. What a predicate, transformation or function cache of the factory, a memo table or an operator cache of a BDD kernel holds is found again only under everything the answer depends on (formula, polarity, target form, operands, operation, variable set), each cache belongs to one question only, a hit returns exactly the answer a miss computed, and the result of a cancelled computation is not remembered. A new formula is identified with an existing one only if all its parts agree. When BDD nodes are freed or the variable order changes, all operator caches of the kernel are emptied.",
  ["inputs", "histories"],
  "every sequence of computations on one factory or BDD kernel, every formula, every garbage collection and reordering between them",
  "Tests mostly start with a fresh factory or kernel; a wrong hit needs two different computations that meet in the same entry, in the right order.",
  ["formula/factory.go", "formula/transformation.go", "formula/predicate.go", "formula/function.go", "formula/set.go", "normalform/nnf.go", "normalform/cnf.go", "normalform/dnf.go", "normalform/aig.go", "bdd/normalform.go", "bdd/cache.go", "bdd/construction.go", "bdd/operation.go", "bdd/kernel.go", "dnnf/dnnf.go", "dnnf/compiler.go", "simplification/distribution.go", "simplification/unit_propagation.go"],
  [("Lookup/Set...Cache", "formula/transformation.go, formula/predicate.go, formula/function.go"), ("CachingFactory find*", "formula/factory.go"), ("cacheEntry", "bdd/cache.go"), ("resetCaches / gbc / reorderDone", "bdd/kernel.go"), ("cnfAux", "dnnf/compiler.go")],
  "structural comparison of lookup and store terms over SSA, dependence of answers on parameters and noted state, typestate of cancelled computations, must-call analysis of cache resets",
  "Decides for every lookup/store pair in the library that key, cache and answer agree, which parameters the answer depends on, that ids of operations sharing a cache differ, that the comparison of interned formulas covers all fields, and that every way that frees nodes or changes levels empties all caches. Caches hidden behind helpers the analysis cannot match are left open. What hashing costs is not judged.")
C("C10", "BDDs survive garbage collections and changes of the variable order",
  "A BDD handed out keeps denoting its formula whatever else happens on its kernel. Its root node is referenced; while an operation runs, every node it still needs is kept on the reference stack or by a reference, what it reads from the stack is what it has put there, and it leaves the stack as it found it. A garbage collection keeps all that is referenced or on the stack and everything below, and frees nothing else that is marked or referenced. A request to reorder ends the running operation at once, reaches the place that reorders, and the operation is redone from its beginning, with everything that depends on the variable order; where that is impossible reordering is disabled, and enabled again afterwards. Marks put on nodes for a traversal are taken back before nodes are created or the operation ends. A new node is identified with an existing one only if level, low and high agree, and is filed under its hash in the current table.",
  ["inputs", "histories"],
  "every sequence of BDD operations on one kernel, every size of the node table, every point at which it fills up and every reordering method",
  "Tests use node tables that rarely fill up; which allocation triggers the collection or the reordering depends on the whole history of the kernel, and a node lost there shows only when its slot is reused.",
  ["bdd/bdd.go", "bdd/kernel.go", "bdd/construction.go", "bdd/operation.go", "bdd/reordering.go"],
  [("addRef/delRef/pushRef/readRef/popref", "bdd/kernel.go"), ("doWithPotentialReordering", "bdd/kernel.go"), ("gbc, makeNode, nodeResize", "bdd/kernel.go"), ("applyRec, notRec, restrictRec, quantRec", "bdd/kernel.go, bdd/construction.go"), ("satOneRec, fullSatOneRec, support", "bdd/operation.go"), ("markRoots, reorderDone, reorderMakenode", "bdd/reordering.go")],
  "typestate (references, stack, marks, reordering disabled) over all paths of the SSA form, abstract interpretation of the node stack, path-sensitive tracking of the reordering flag",
  "Decides the reference, stack, flag and mark protocols on every path of every function of the package, the coverage of the marking phase of the collection, and the comparison and filing of new nodes. The level swapping itself (reorderSwap and the block moves) and the apply tables are not judged, nor whether the kernel runs out of memory.")
C("C11", "Every connective keeps its meaning in every formula operation",
  "Negation, implication, equivalence, conjunction, disjunction, the constants and the literals mean the same in every operation that walks over a formula. For every sort and every phase, what the operation makes of a formula is the right Boolean combination of what it makes of the operands: constructing formulas in the factory (also out of its caches), NNF, factorized CNF and DNF, AIG, evaluation, restriction, substitution, expansion of at-most-one and exactly-one constraints, distribution, factoring out, and the compilation to a BDD. Where an operation introduces auxiliary variables (Plaisted-Greenbaum and Tseitin CNF, the clauses a SAT or MaxSAT solver adds for a formula), the clauses it emits for a sub-formula define the auxiliary variable in every phase in which it is used or reused, in the right sign, and no clause is missing or too strong.",
  ["inputs"],
  "every formula sort in every phase, top-level or nested, any operands and any number of them, cached or computed",
  "Tests compare a few dozen formulas; a case that is wrong for one sort in one phase at one level (a negated equivalence below an implication, an auxiliary variable reused in the other phase) needs exactly that nesting.",
  ["formula/factory.go", "normalform/nnf.go", "normalform/cnf.go", "normalform/dnf.go", "normalform/aig.go", "assignment/evaluate.go", "assignment/evaluate_to_constant.go", "assignment/restrict.go", "transformation/substitution.go", "transformation/literal_substitution.go", "transformation/pure_expansion.go", "simplification/distribution.go", "simplification/factor_out.go", "bdd/bdd.go", "sat/pg_on_solver.go", "maxsat/pg_on_solver.go"],
  [("nnfRec", "normalform/nnf.go"), ("factorizedCNFRec / distributeCNF", "normalform/cnf.go"), ("computeTransformation / computeTseitin", "normalform/cnf.go"), ("pgImpl / pgEquiv / pgNary, getPGVar", "sat/pg_on_solver.go, maxsat/pg_on_solver.go"), ("Not / Implication / Equivalence / And / Or", "formula/factory.go"), ("compile", "bdd/bdd.go")],
  "denotational abstract interpretation: structural induction over SSA with truth tables of operands per sort and phase",
  "Decides each case by taking the recursive calls at their specification (induction hypothesis) and comparing the truth table of the returned term, or of the emitted clauses, with that of the connective; n-ary cases with up to three operands. Cardinality and pseudo-Boolean constraints are opaque here (see C07), the cost heuristics of the simplifiers are not judged, and the BDD operators themselves are taken as given.")

C("C12", "Normal forms have the form they promise",
  "What a normal form function returns has the promised form for every formula of every sort: NNF gives a negation normal form, the CNF functions (factorization, Plaisted-Greenbaum, Tseitin, the advanced mode and the one that goes through a BDD) a CNF, the DNF functions a DNF, AIG an and-inverter graph; also when the result comes out of a cache of the factory or a reused transformation state. The predicates IsNNF, IsCNF, IsDNF, IsAIG, IsMinterm and IsMaxterm say yes exactly for formulas of that form, store exactly that answer, and the factory records of a new conjunction or disjunction that it is a CNF exactly if it is one.",
  ["inputs"],
  "every formula sort, nested in any way, any operands and any number of them, computed or out of a cache, with fresh or reused transformation states",
  "Tests look at the form of a few dozen results; a sort handled wrongly below another one, or a formula cached under the wrong kind, needs that nesting or that order of calls. A formula wrongly marked as CNF is handed to the solver as it is.",
  ["normalform/nnf.go", "normalform/cnf.go", "normalform/dnf.go", "normalform/aig.go", "normalform/term.go", "bdd/normalform.go", "formula/factory.go", "assignment/restrict.go"],
  [("nnfRec", "normalform/nnf.go"), ("factorizedCNFRec / distributeCNF", "normalform/cnf.go"), ("PGCNF / TseitinCNF / computeTseitin", "normalform/cnf.go"), ("factorizedDNFRec / distributeDNF", "normalform/dnf.go"), ("AIG / IsAIG", "normalform/aig.go"), ("compute", "bdd/normalform.go"), ("setCNFCaches", "formula/factory.go")],
  "abstract interpretation over SSA with a domain of syntactic forms; greatest fixpoint of per-function claims (input sort and form to output form), caches and tables included",
  "Decides the form by induction over the formula: every function that takes and gives a formula gets a claim per sort, form of the input and flag, all claims start at the top and fall until they hold together; conjunctions and disjunctions of two and three operands stand for any number. The clauses of a cardinality or pseudo-Boolean encoding, what unit propagation gives and what BDD.CNF and BDD.DNF give are taken to be clauses, a CNF and a DNF. AIG of an equivalence is a known finding. That the result is equivalent is C11, not this.")
C("C14", "The operations of a BDD compute the function they stand for",
  "For BDDs of one kernel, And, Or, Implies, ImpliedBy, Equivalence, Negate, Restrict, Exists and ForAll give the BDD of exactly that Boolean function of their operands, whatever the operands are and also without any variable; the BDD of a list of literals is their conjunction; ToFormula (both ways of following the paths), CNF and DNF give a formula of the same function. Model, ModelWithVariables and FullModel give a model of the BDD if there is one, over the variables promised and with the default value asked for; ModelEnumeration gives every model over its variables; ModelCount, PathCountOne, PathCountZero and NumberOfCNFClauses count exactly.",
  ["inputs", "configurations"],
  "all BDDs as operands (constants, equal nodes, roots on the same level or one above the other), all variable orders, all sets of variables or literals, kernels with more variables than the BDD has",
  "Tests apply the operations to a few formulas; a wrong terminal case or a wrong branch below one pair of levels needs operands with exactly that shape, and the cache then hides it or spreads it.",
  ["bdd/kernel.go", "bdd/construction.go", "bdd/operation.go", "bdd/bdd.go", "bdd/function.go"],
  [("applyRec / apply", "bdd/kernel.go"), ("notRec / restrictRec / quantRec / varset2svartable", "bdd/construction.go"), ("satOneRec / satOneSetRec / fullSatOneRec / allSatRec / satCountRec / pathCountRec", "bdd/operation.go"), ("toFormulaRec", "bdd/operation.go"), ("CompileLiterals / createModel", "bdd/bdd.go"), ("bddModelEnum / bddNormalform", "bdd/function.go")],
  "abstract interpretation of the kernel over SSA with Boolean functions and difference bounds on levels as domain; structural induction over the nodes",
  "Every function is decided on its own for arbitrary nodes: a node stands for an unknown function of its children, levels are related by difference bounds, recursive calls are replaced by what they are to compute, and the result of every path must be the function wanted. Lists of literals are taken up to three literals, gaps between levels up to four. That makeNode gives a node that is the decision of its children, and that the caches give back what was put in, is C10 and C09; the level swaps of a reordering are not decided.")

C("C15", "What a caller chooses is what runs",
  "A function with an optional configuration uses the one it is given; if none is given the factory's configuration of that sort, and without one the default. A function that has a configuration hands that one on to everything it calls that takes one, also in a recursion. Every value of an option of a configuration (encoders, CNF algorithms and fallbacks, clause representation, clause minimization, initial phase, MaxSAT algorithm and strategies, reordering methods, kinds of backbone, switches and rating of the simplifier) makes exactly the algorithm of that name run, and each numeric option reaches the algorithms it is made for and no other. A SAT call uses the handler and the additional formulas of its parameters, computes a model (for the variables given), a core and the propagated literals exactly if it was asked to and the answer allows it, and its accessors return that. Chained setters set what they are named after and keep the rest. The short variants of functions (without handler or configuration) pass on every argument they are given.",
  ["inputs", "configurations"],
  "all values of all options, with and without a configuration given or stored in the factory, all combinations of what a SAT call is asked for and answers",
  "A result computed with another algorithm than the one chosen is usually still correct, so nothing fails; tests rarely use a configuration other than the default, never all values of each option, and do not look at which algorithm ran.",
  ["encoding", "normalform/cnf.go", "sat/config.go", "sat/solver.go", "sat/call.go", "sat/backbone.go", "maxsat", "simplification/advanced.go", "randomizer", "model/enum", "model/count", "bdd/reordering.go", "explanation"],
  [("determineConfig", "*/*.go"), ("EncodeCCInResult / EncodePBCInResult / EncodeIncremental", "encoding/cc_encoding.go"), ("CNF / advancedEncoding", "normalform/cnf.go"), ("newSolver / iterativeByDefault", "maxsat/solver.go"), ("Solver.Call / initCall / CallParams", "sat/call.go"), ("AdvancedWithHandler", "simplification/advanced.go")],
  "conditional constant propagation over SSA, one run for every value of an option (or case of an optional configuration), with reachability of algorithms through the call graph and interprocedural flow of option values",
  "Which functions stand for which algorithm is a table in the check, compared by name; a choice made through tables of functions is left undecided. Where more than one configuration is passed to a variadic parameter any of them may be used. That each algorithm then computes the right thing is C07, C11, C12 and N02 to N04.")

C("C16", "The same calls give the same results",
  "What the library answers is determined by the calls made and their arguments: the same sequence of calls gives the same formulas with the same numbers, the same models, sets, orders and texts in every run. Nothing depends on the order in which a map is iterated (results are collected into sets, sums or maps, or put into an order that tells any two elements apart before anyone sees them), on the clock (except for the timeout handler), on goroutines, or on random numbers - the formula randomizer draws all its numbers from a source made from the seed of its configuration, and only the random reordering of a BDD is random. No package variable changes, so factories, solvers and kernels do not influence each other.",
  ["schedules", "inputs", "histories"],
  "all iteration orders of all maps, all histories of other factories, solvers and kernels in the process",
  "A run sees one order of a map; a test that compares with a fixed result passes as long as its maps are small or the elements happen not to collide, and fails, if at all, only sometimes. Tests do not use two factories at once to see whether they disturb each other.",
  ["formula/set.go", "assignment", "encoding/normalize.go", "sat/unsat_core.go", "sat/var_occs.go", "model/iter/split.go", "primeimplicant", "np/set_cover.go", "dnnf/dtree_generator.go", "randomizer", "transformation/substitution.go", "bdd/cache.go"],
  [("fset.setContent / NewVarSetCopy", "formula/set.go"), ("PosVars / NegVars / Sprint", "assignment/assignment.go"), ("normalizeLE", "encoding/normalize.go"), ("computeUnsatCore", "sat/unsat_core.go"), ("chooseByOccs", "model/iter/split.go"), ("newFormulaRandomizer / ccVariables", "randomizer/formula_randomizer.go")],
  "effect and order-dependence analysis of every loop over a map over SSA (interprocedural), typestate 'sorted before use' of slices filled in map order, totality of their comparators; effect analysis of package variables; call-graph confinement of random numbers and clock",
  "Trusts that literals of known variables get numbers that do not depend on the order in which they are asked for (they are paired with their variable), and that the neighbour lists of the DNNF graph are only counted and marked (read by hand). Values of function type called per element are not followed. Floating-point sums in map order are reported.")

C("C13", "The books of the SAT core agree with what it does",
  "What the SAT solver remembers about its clauses is what it was given and what it did. With proof generation every clause is recorded, unchanged and with the proposition it was added with, before the solver may return; every assumption that is used is recorded with the proposition of that very assumption; every learnt clause, and the new form of a clause that lost a false literal, is in the proof before it is used; a deletion is written only for a clause that is removed; all lines hold all literals of their clause in one numbering, and the unsat core is read back in that numbering and with the propositions of the clauses found. A fact - a literal that is fixed for good - is remembered, so that a restored state still knows it. A clause is entered in the watch lists at which it is looked up when one of its literals becomes false, and is taken out of exactly those.",
  ["histories", "inputs"],
  "all sequences of additions, assumptions, calls, saved and loaded states, and all learnt clauses of all searches",
  "The records are only looked at when a core is computed or a state is restored. A test that asks for a core sees the lines that this refutation needs; a missing line, a wrong proposition or a forgotten fact shows up only with instances that need it, and then as a core with a wrong proposition or as a satisfiable answer two calls later.",
  ["sat/core.go", "sat/unsat_core.go", "sat/proofs.go"],
  [("AddClause", "sat/core.go"), ("search", "sat/core.go"), ("removeClause", "sat/core.go"), ("attachClause / simpleRemoveClause", "sat/core.go"), ("getFormulaForVector / handleTrivialCase", "sat/unsat_core.go")],
  "path-sensitive must-precede dataflow over SSA with proof generation as branch assumption; symbolic description of the written lines (source, loop bounds, mark) and exhaustive constant propagation of the literal encoding and its inverse; matching of guarded watch-list insertions and removals",
  "Decides what is written, not that the clauses analyze makes follow from the others (N01), nor the proof checker itself (only its indices, C17). Lines whose construction is not recognised are listed as open in the evidence and not judged. At-most constraints have no proof lines.")

C("C17", "A literal on a solver is the literal it was made from",
  "Inside SAT solver, MaxSAT solvers and DNNF compiler numbers stand for variables, for literals (variable and sign packed), for decision levels, for literals of a proof and for soft clauses. A number of one kind is never used as another: a table with an entry per variable is asked with variables, the watch lists with literals, the levels with levels. The sign a literal is made with is the negated phase of the formula literal everywhere, phases read from the solver are turned back the same way, and the name and the number of a variable are entered in both directions together.",
  ["inputs", "histories"],
  "all numbers that flow between the functions and tables of the solvers, for all sizes of problem",
  "All kinds are the same machine type. A variable taken for a literal is another literal of some other variable, so nothing fails: a model has the wrong variable or phase, and with small tests where the numbers are close together, or the phase happens not to matter, everything passes. A level taken for a variable is out of range only when there are more levels than variables.",
  ["sat", "maxsat", "dnnf"],
  [("computeLBD", "sat/core.go"), ("clause2Vec / createAssignment", "sat/solver.go"), ("Vari / Not / MkLit", "sat/core.go"), ("addClause / solverLiteral", "maxsat/solver.go"), ("newLiteral", "maxsat/algorithm.go"), ("SatSolver", "dnnf/dnnf_solver.go")],
  "kind (unit) inference by unification over all numbers, slices, maps and fields of the SSA program; parity inference (phase or sign) for booleans; checked at every index, comparison, conversion and call",
  "The kinds start at the packing and unpacking functions, the level and name tables, and spread by unification; numbers that meet none of them have no kind and are not judged. A negated literal has the kind of a literal: that the right literal is negated is judged only where the sign is made from or turned into a phase.")

C("C18", "What is printed is read back as the same formula",
  "The text of a formula, with the default symbols, is read by the parser as that formula: each sort of formula and each comparator is printed with a symbol that the lexer takes as one token and the listener builds the same sort from; an operand stands without brackets only where the grammar reads its sort as one operand; left and right operand, coefficient and literal, sign and name stay together and in their places both ways; names of variables, generated ones included, are one token each. Lines of a formula file are the operands of a conjunction and are read back as one; a DIMACS file announces the variables and clauses it has, writes each literal with the number of its variable (from 1) and the sign of its phase, and the reader turns sign, number and line back into phase, name and clause.",
  ["inputs"],
  "all formulas over names of the lexer's alphabet, all nestings of sorts, all comparators and coefficients; all formulas written to and read from files",
  "The texts of formulas are an unbounded set; tests compare some thirty printed strings and parse some more, with the sorts nested in a few of the possible ways. A bracket too few shows only for one pair of sorts on one side, a coefficient left out only for one value, and the text still parses: as another formula.",
  ["formula", "parser", "io"],
  [("toInnerString / formatBinaryOperator / formatNaryOperator / formatPBC", "formula/printer.go"), ("DefaultSymbols", "formula/printer.go"), ("formulaListener", "parser/propositional_parser.go"), ("serializedATN", "parser/logicngpropositional_lexer.go, parser/logicngpropositional_parser.go"), ("WriteDimacsToWriter / ReadDimacsFile", "io"), ("WriteFormulaToWriter / ReadFormulaFile", "io")],
  "conditional constant propagation with symbolic strings through the printer, once per sort of formula and sort of operand; lexer and grammar decoded from the automata (serialized ATN) in the generated source; tokens joined with the listener's constructors; unit-rule closure of the grammar decides where a bracket may be missing",
  "The interpreter of the automata (the antlr runtime) is trusted. Names outside the lexer's alphabet, and symbols chosen by the caller, are not read back and not claimed; that the factory gives the same formula for the same operands is C02. Where a printer builds its text in a way the symbolic strings do not follow, the place is listed as open in the evidence.")

C("C19", "Enumerating and counting report each model exactly once",
  "An enumeration or count over a solver adds every model it finds to its books once and excludes it before the solver is called again; it says it is finished only when the solver finds no more. Models of a finished iteration are committed, those of an unfinished one rolled back and found again under the split assignments, each of which is on the solver while it is iterated over. What was committed stays; what was not is forgotten on a rollback; variables that are not on the solver are given both phases, or a factor of two, once each. A count by DNNF is the product over the components and conjunctions, the sum over disjunctions with a factor of two for each variable missing on one side, and a factor of two for each variable fixed nowhere. The canonical CNF is built from the models of the negation with their literals negated, the canonical DNF from the models.",
  ["inputs", "histories", "configurations"],
  "all formulas, sets of variables, strategies and sequences of splits; all paths through the recursion, the iteration and the collectors",
  "Tests count the models of some formulas and compare a few strategies. Which models are lost or given twice depends on where a limit stops the iteration, on which variables are on the solver, and on what the books hold at that moment; the result is a plausible number or list.",
  ["model/iter", "model/enum", "model/count", "dnnf"],
  [("ModelIterator.iterRecursive / iterate / generateBlockingClause", "model/iter/iteration.go"), ("modelEnumCollector / modelEnumBddCollector", "model/enum"), ("modelCountCollector", "model/count/sat_counting.go"), ("CountWithHandler / simplify / count", "model/count/dnnf_counting.go"), ("DNNF.ModelCount / count", "dnnf/dnnf.go"), ("canonicalEnumeration", "model/enum/normalform.go")],
  "path-sensitive typestate of the collector through the recursion (helpers inlined); must-pass dataflow from each model found to the books and to the blocking clause; conditional constant propagation over the blocking clause and over the count of each sort; read/reset order of the books' fields; symbolic terms of the big numbers",
  "That the solver finds a model whenever there is one (N01) and that the DNNF is decomposable and deterministic (N05) are taken as given. Limits, orders and the choice of split variables are free. Books that are kept or counts that are computed in a form not followed are listed as open in the evidence.")

# ---- not decided here
N("N01", "The SAT solver answers correctly",
  "A SAT call says satisfiable exactly if the clauses added (with the assumptions) have a model, the model it gives satisfies them all, and the core it gives is unsatisfiable.",
  ["inputs", "histories"], "all clause sets, assumptions and sequences of calls",
  "Tests sample some hundred instances; a wrong propagation, analysis or clause minimisation shows on particular conflicts only.",
  ["sat/core.go", "sat/solver.go"], [("search / propagate / analyze", "sat/core.go")],
  "the invariants of watch lists, trail, reasons and learnt clauses relate heap structures of unbounded size across loops of the search; no static argument in reach establishes them (the state handling around the search is C04, C05 and C13)")
N("N02", "MaxSAT results are optimal",
  "The result of a MaxSAT algorithm is the smallest weight of falsified soft clauses.",
  ["inputs", "configurations"], "all weighted clause sets and algorithms",
  "Tests compare a few instances against known optima.",
  ["maxsat"], [("search", "maxsat/*.go")],
  "optimality is an argument about the sequence of cores and bounds of an unbounded search over solver answers")
N("N03", "The inner encodings of cardinality and pseudo-Boolean constraints are correct",
  "For every kind of encoding, number of variables and bound the clauses produced are satisfiable in the auxiliary variables exactly for the assignments that satisfy the constraint.",
  ["inputs", "configurations"], "all encodings, sizes and bounds",
  "Tests count models for small sizes.",
  ["encoding"], [("totalizer, counter, sorter, adder, SWC, binary merge", "encoding/*.go")],
  "the clauses are produced by nested loops over runtime sizes (merging networks, adders, watchdogs); their meaning is an inductive fact about each construction which a dataflow domain does not express; what surrounds them (choice, bounds, comparators, results) is C07")
N("N04", "The level swaps of a BDD reordering keep every node's function",
  "Swapping two adjacent levels, and so every reordering method, leaves all nodes denoting what they did.",
  ["inputs", "histories"], "all node tables and orders",
  "Tests reorder a few BDDs and compare counts.",
  ["bdd/reordering.go"], [("reorderVardown / swap", "bdd/reordering.go")],
  "the swap rewrites hash chains and nodes in place while both levels are partly converted; its invariant quantifies over the whole node table (that operations survive a reordering is C10)")
N("N05", "DNNF compilation is equivalent to its input",
  "The DNNF compiled from a formula is equivalent to it, decomposable and deterministic, and its count is the number of models.",
  ["inputs"], "all formulas",
  "Tests count models of some formulas.",
  ["dnnf"], [("compiler", "dnnf/compiler.go")],
  "depends on the solver state at every decision and on a component cache keyed by bit sets computed at run time")
N("N06", "Backbones, prime implicants and cores are exact",
  "The backbone holds exactly the literals implied, a prime implicant is minimal, a MUS or SMUS is minimal.",
  ["inputs", "configurations"], "all formulas and solver states",
  "Tests compare small results.",
  ["sat/backbone.go", "primeimplicant", "explanation", "model"], [("search loops over solver calls", "sat, primeimplicant, explanation, model")],
  "minimality and completeness are consequences of the answers of a sequence of solver calls, of a length known only at run time")
N("N07", "Simplifiers keep the formula equivalent and never make it bigger",
  "Backbone, subsumption, factoring-out, negation and advanced simplification give an equivalent formula that is rated no worse than the input.",
  ["inputs", "configurations"], "all formulas and rating functions",
  "Tests simplify a few formulas.",
  ["simplification"], [("advanced simplifier", "simplification/advanced.go")],
  "equivalence rests on results of SAT, prime implicant and SMUS computations (see N01 and N06) and the rating on sizes known at run time; the connective-wise parts (distribution, factoring out) are decided in C11")
N("N09", "Computations end, and end in time",
  "Every computation terminates, and a cancelled one ends soon after its handler said so.",
  ["inputs", "schedules"], "all inputs",
  "Tests that hang are only seen on the inputs they try.",
  ["sat", "maxsat", "bdd", "dnnf"], [("search loops", "all packages")],
  "termination of the search algorithms rests on run-time measures; how soon a poll is reached is a question of running time")
