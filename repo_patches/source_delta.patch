From 4e7518fab18427f50863bd7d07ac5ee49c14274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 01/33] fix: a SAT call that is cancelled in its search reports
 the cancellation

---
 sat/core.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index df4873e..6084eb9 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -394,7 +394,12 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 	status := f.TristateUndef
 	for status == f.TristateUndef {
-		status, _ = m.search(hdl)
+		var state handler.State
+		status, state = m.search(hdl)
+		if !state.Success {
+			m.cancelUntil(0)
+			return f.TristateUndef, state
+		}
 	}
 
 	if m.config.ProofGeneration && len(m.assumptions) == 0 {
-- 
2.43.0


From fdc735e87127ba6ab0016bc66f66403da0fd46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 02/33] fix: model iteration reports a cancelled SAT call or
 sub-iteration and restores the solver

---
 model/iter/iteration.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc06f08..35db9c1 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -75,6 +75,10 @@ func (m *ModelIterator[R]) iterRecursive(
 	solver.Add(f.LiteralsAsFormulas(splitModel)...)
 	iterFinished, iterState := iterate(collector, solver, iterVars, m.additionalVars, maxModelsForIter, m.hdl)
 	if !iterState.Success {
+		err := solver.LoadState(state)
+		if err != nil {
+			panic(err)
+		}
 		collector.Commit(m.hdl)
 		return iterState
 	}
@@ -119,7 +123,10 @@ func (m *ModelIterator[R]) iterRecursive(
 
 		newSplitAssignments, st := collector.RollbackAndReturnModels(solver, m.hdl)
 		if !st.Success {
-			solver.LoadState(state)
+			err := solver.LoadState(state)
+			if err != nil {
+				panic(err)
+			}
 			return st
 		}
 		recursiveSplitVars := m.strategy.SplitVarsForRecursionDepth(remainingVars.AsImmutable(), solver, recursionDepth+1)
@@ -127,7 +134,14 @@ func (m *ModelIterator[R]) iterRecursive(
 			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
 			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
-			m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			s := m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			if !s.Success {
+				err := solver.LoadState(state)
+				if err != nil {
+					panic(err)
+				}
+				return s
+			}
 			if s := collector.Commit(m.hdl); !s.Success {
 				err := solver.LoadState(state)
 				if err != nil {
@@ -166,7 +180,15 @@ func iterate[R any](
 
 	foundModels := 0
 	state := handler.Success()
-	for iterSATCall(solver, hdl) {
+	for {
+		sResult := solver.Call(sat.Params().Handler(hdl))
+		if !sResult.OK() {
+			state = sResult.State()
+			break
+		}
+		if !sResult.Sat() {
+			break
+		}
 		modelFromSolver := solver.CoreSolver().Model()
 		foundModels++
 		if foundModels >= maxModels {
@@ -194,11 +216,6 @@ func iterate[R any](
 	return true, succ
 }
 
-func iterSATCall(solver *sat.Solver, hdl handler.Handler) bool {
-	sResult := solver.Call(sat.Params().Handler(hdl))
-	return sResult.OK() && sResult.Sat()
-}
-
 func generateBlockingClause(modelFromSolver []bool, relevantVars []int32) []int32 {
 	var blockingClause []int32
 	if relevantVars != nil {
-- 
2.43.0


From e31be9cd11470b211ecf3ea06b4cf35c97a01f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 03/33] fix: subsumption stops at the first request of the
 handler to cancel

---
 simplification/subsumption.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/simplification/subsumption.go b/simplification/subsumption.go
index d466b93..673528b 100644
--- a/simplification/subsumption.go
+++ b/simplification/subsumption.go
@@ -105,21 +105,16 @@ func generateSubsumedUBTree(fac f.Factory, formula f.Formula, hdl handler.Handle
 		return nil, handler.Cancelation(e)
 	}
 	ubTree := newUbtree()
-	e := event.Nothing
-	mapping.Each(func(_ any, value any) {
-		value.(*arraylist.List).Each(func(_ int, _set any) {
-			set := _set.(*f.LitSet)
+	for _, terms := range mapping.Values() {
+		for _, term := range terms.(*arraylist.List).Values() {
+			set := term.(*f.LitSet)
 			if ubTree.firstSubset(set) == nil {
 				ubTree.addSet(set)
-				if ev := event.SubsumptionAddedNewSet; !hdl.ShouldResume(ev) {
-					e = ev
-					return
+				if e := event.SubsumptionAddedNewSet; !hdl.ShouldResume(e) {
+					return nil, handler.Cancelation(e)
 				}
 			}
-		})
-	})
-	if e != event.Nothing {
-		return nil, handler.Cancelation(e)
+		}
 	}
 	return ubTree, handler.Success()
 }
-- 
2.43.0


From 5a36776714f80ee36f9fdf3933e3ed0de563562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 04/33] fix: a cancelled MaxSAT call restores the solver and is
 not cached as its result

---
 maxsat/algorithm.go | 7 +++++--
 maxsat/solver.go    | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ddc457b..15558d9 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -104,11 +104,14 @@ func (m *maxSatAlgorithm) innerSearch(
 	}
 	stateBeforeSolving := m.saveState()
 	result, state := search()
+	_ = m.loadState(stateBeforeSolving)
+	m.hdl = nil
+	if !state.Success {
+		return Result{}, state
+	}
 	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) {
 		return Result{}, handler.Cancelation(e)
 	}
-	_ = m.loadState(stateBeforeSolving)
-	m.hdl = nil
 	return result, state
 }
 
diff --git a/maxsat/solver.go b/maxsat/solver.go
index 2f5e80c..208f596 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -229,10 +229,13 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	} else {
 		m.solver.setProblemType(weighted)
 	}
-	var state handler.State
-	m.result, state = m.solver.search(hdl)
+	result, state := m.solver.search(hdl)
+	if !state.Success {
+		return Result{}, state
+	}
+	m.result = result
 	m.ok = true
-	return m.result, state
+	return m.result, succ
 }
 
 // SupportsWeighted reports whether the solver supports weighted problems.
-- 
2.43.0


From 186f844327825f87a841094fe35eeff134d08328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 05/33] fix: a limiting handler that has cancelled can be used
 again for the next computation

---
 bdd/handler.go        | 1 +
 normalform/handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bdd/handler.go b/bdd/handler.go
index 4dfd375..fc75cd3 100644
--- a/bdd/handler.go
+++ b/bdd/handler.go
@@ -22,6 +22,7 @@ func HandlerWithNodes(bound int) *NodesHandler {
 func (n *NodesHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.BddComputationStarted:
+		n.canceled = false
 		n.count = 0
 	case event.BddNewRefAdded:
 		n.count++
diff --git a/normalform/handler.go b/normalform/handler.go
index 87ec8c4..dcbb09e 100644
--- a/normalform/handler.go
+++ b/normalform/handler.go
@@ -22,6 +22,7 @@ func NewFactorizationHandler(distributionBoundary, clauseBoundary int) *Factoriz
 func (f *FactorizationHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.FactorizationStarted:
+		f.canceled = false
 		f.currentDistributions = 0
 		f.currentClauses = 0
 	case event.DistributionPerformed:
-- 
2.43.0


From 38d3a5a7a1f49bd51e04d96f7f49138a6dcb4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 06/33] fix: assumption solving on a proof-tracing solver
 provides a proposition per assumption

---
 sat/core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index 6084eb9..df322aa 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -429,8 +429,12 @@ func (m *CoreSolver) SolveWithAssumptions(
 	hdl handler.Handler, assumptions []int32,
 ) (res f.Tristate, state handler.State) {
 	m.assumptions = assumptions
+	if m.config.ProofGeneration {
+		m.assumptionProps = make([]f.Proposition, len(assumptions))
+	}
 	res, state = m.Solve(hdl)
 	m.assumptions = []int32{}
+	m.assumptionProps = nil
 	return
 }
 
-- 
2.43.0


From 99e6508da71f1855b5fa95e5a9e44e144625f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 07/33] fix: unsat core of a call with assumption literals
 names the right propositions

---
 sat/call.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sat/call.go b/sat/call.go
index b496e1e..c425b93 100644
--- a/sat/call.go
+++ b/sat/call.go
@@ -1,6 +1,9 @@
 package sat
 
 import (
+	"cmp"
+	"slices"
+
 	"github.com/booleworks/logicng-go/errorx"
 	"github.com/booleworks/logicng-go/explanation"
 	f "github.com/booleworks/logicng-go/formula"
@@ -257,17 +260,24 @@ func initCall(solver *Solver, hdl handler.Handler, addProps []f.Proposition) *ca
 }
 
 func splitPropsIntoLitsAndFormulas(additionalPropositions []f.Proposition) additionals {
-	var lits []f.Literal
 	var propsForLits []f.Proposition
 	var props []f.Proposition
 	for _, prop := range additionalPropositions {
 		if prop.Formula().Sort() == f.SortLiteral {
-			lits = append(lits, f.Literal(prop.Formula()))
 			propsForLits = append(propsForLits, prop)
 		} else {
 			props = append(props, prop)
 		}
 	}
+	// the clause vector of the literals is sorted, hence keep the propositions
+	// in the same order
+	slices.SortStableFunc(propsForLits, func(p1, p2 f.Proposition) int {
+		return cmp.Compare(p1.Formula(), p2.Formula())
+	})
+	var lits []f.Literal
+	for _, prop := range propsForLits {
+		lits = append(lits, f.Literal(prop.Formula()))
+	}
 	return additionals{lits, propsForLits, props}
 }
 
-- 
2.43.0


From 34ecd4d805e1e9fd0ebb562d6c83e9f44d13c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 08/33] fix: adding a cardinality constraint to a solver does
 not reorder its literals

---
 sat/solver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/solver.go b/sat/solver.go
index a3f64ae..681e60b 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -147,6 +147,7 @@ func (s *Solver) addClause(formula f.Formula, proposition f.Proposition) {
 
 func (s *Solver) generateClauseVector(literals []f.Literal) []int32 {
 	clause := make([]int32, len(literals))
+	literals = slices.Clone(literals) // never reorder the literals of a formula or of the caller
 	slices.Sort(literals)
 	for i, lit := range literals {
 		_, phase, _ := s.fac.LitNamePhase(lit)
-- 
2.43.0


From 108026ddb093c0bcceffc77eba19ae8c24bab54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 09/33] fix: a syntax error is reported before the formula is
 built from the broken parse tree

---
 parser/propositional_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 65c873c..005efa1 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -53,10 +53,11 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
 	listener := &formulaListener{fac: p.fac}
-	antlr.ParseTreeWalkerDefault.Walk(listener, lngParser.Formula())
+	tree := lngParser.Formula()
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
+	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
 	return listener.formula(), nil
 }
 
-- 
2.43.0


From 33ae63bc7b3eddf139b04c6d35353cb28f6bbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 10/33] fix: pseudo-Boolean constraints over number literals
 and numbers out of range in the parser

---
 parser/propositional_parser.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 005efa1..30bfe36 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -58,6 +58,9 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
 	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
+	if listener.err != nil {
+		return p.fac.Falsum(), listener.err
+	}
 	return listener.formula(), nil
 }
 
@@ -88,6 +91,7 @@ type formulaListener struct {
 	fac   f.Factory
 	stack []stackFormula
 	pbc   *pbc
+	err   error
 }
 
 type pbc struct {
@@ -217,13 +221,13 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 0:
 		lit = c.LITERAL().GetText()
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 1:
-		lit = c.LITERAL().GetText()
+		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
-		lit = c.NUMBER(0).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(1).GetText())
+		lit = c.NUMBER(1).GetText()
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
@@ -231,12 +235,20 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	l.pbc.coefficients = append(l.pbc.coefficients, coeff)
 }
 
+func (l *formulaListener) parseNumber(text string) int {
+	number, err := strconv.Atoi(text)
+	if err != nil && l.err == nil {
+		l.err = errorx.BadInput("number %s is out of range", text)
+	}
+	return number
+}
+
 func (l *formulaListener) EnterComparison(_ *ComparisonContext) {
 	l.pbc = &pbc{}
 }
 
 func (l *formulaListener) ExitComparison(c *ComparisonContext) {
-	l.pbc.rhs, _ = strconv.Atoi(c.NUMBER().GetText())
+	l.pbc.rhs = l.parseNumber(c.NUMBER().GetText())
 	l.pbc.comparator = l.parseComparator(c)
 	l.pushFormula(l.fac.PBC(l.pbc.comparator, l.pbc.rhs, l.pbc.literals, l.pbc.coefficients))
 }
-- 
2.43.0


From 67b1ee893864a76513d153d26cd62db9b2289cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 11/33] fix: a formula file with a syntax error is reported as
 an error instead of a panic

---
 io/formula_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index c2b4820..fbba57c 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -54,7 +54,11 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	scanner.Buffer(buf, 1024*1024)
 	for scanner.Scan() {
 		line := scanner.Text()
-		ops = append(ops, parser.ParseUnsafe(line))
+		op, err := parser.Parse(line)
+		if err != nil {
+			return nil, err
+		}
+		ops = append(ops, op)
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From 973921779e3bac39a8a9a87bce22cfc93e06ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 12/33] fix: the MaxSAT reader reports malformed lines and
 failing reads instead of dropping them

---
 maxsat/reader.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index b17fa1d..04d6315 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
 
@@ -26,9 +27,12 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 	for scanner.Scan() {
 		line := scanner.Text()
 		if strings.HasPrefix(line, "p wcnf") {
-			header := strings.Split(strings.TrimSpace(line), " ")
+			header := strings.Fields(line)
 			if len(header) > 4 {
-				hardWeight, _ = strconv.Atoi(header[4])
+				hardWeight, err = strconv.Atoi(header[4])
+				if err != nil {
+					return err
+				}
 			}
 			break
 		} else if strings.HasPrefix(line, "p cnf") {
@@ -37,7 +41,10 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		}
 	}
 	for scanner.Scan() {
-		tokens := strings.Split(strings.TrimSpace(scanner.Text()), " ")
+		tokens := strings.Fields(scanner.Text())
+		if len(tokens) == 0 {
+			continue
+		}
 		weight, err := strconv.Atoi(tokens[0])
 		if err != nil {
 			return err
@@ -48,24 +55,28 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		} else {
 			start = 1
 		}
+		if len(tokens) <= start || tokens[len(tokens)-1] != "0" {
+			return errorx.BadInput("line %s did not end with 0", scanner.Text())
+		}
 		literals := make([]f.Formula, len(tokens)-start-1)
 		for i := start; i < len(tokens)-1; i++ {
-			if len(tokens[i]) > 0 {
-				parsedLit, err := strconv.Atoi(tokens[i])
-				if err != nil {
-					return err
-				}
-				variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
-				literals[i-start] = fac.Literal(variable, parsedLit > 0)
+			parsedLit, err := strconv.Atoi(tokens[i])
+			if err != nil {
+				return err
 			}
+			variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
+			literals[i-start] = fac.Literal(variable, parsedLit > 0)
 		}
 		if pureMaxSat {
-			solver.AddSoftFormula(fac.Or(literals...), 1)
+			err = solver.AddSoftFormula(fac.Or(literals...), 1)
 		} else if weight == hardWeight {
 			solver.AddHardFormula(fac.Or(literals...))
 		} else {
-			solver.AddSoftFormula(fac.Or(literals...), weight)
+			err = solver.AddSoftFormula(fac.Or(literals...), weight)
+		}
+		if err != nil {
+			return err
 		}
 	}
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0


From 33467cba22d584ad4fccdd57c5ddb8a8a43deed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 13/33] fix: a write that fails while a Dot or Mermaid graph is
 written is reported

---
 graphical/dot_writer.go     | 15 +++++++++++----
 graphical/mermaid_writer.go | 14 ++++++++++----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/graphical/dot_writer.go b/graphical/dot_writer.go
index e4f384b..cad1941 100644
--- a/graphical/dot_writer.go
+++ b/graphical/dot_writer.go
@@ -1,6 +1,7 @@
 package graphical
 
 import (
+	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -39,19 +40,25 @@ func WriteDotToFile(file *os.File, representation *Representation) error {
 // the given writer.  Returns an error when there was a problem writing to
 // the writer.
 func WriteDotToWriter(writer io.Writer, representation *Representation) error {
-	err := writeDotPreamble(writer, representation)
+	// the buffered writer keeps the first error and reports it when flushed
+	buffered := bufio.NewWriter(writer)
+	err := writeDotPreamble(buffered, representation)
 	if err != nil {
 		return err
 	}
-	err = writeDotNodes(writer, representation)
+	err = writeDotNodes(buffered, representation)
 	if err != nil {
 		return err
 	}
-	err = writeDotEdges(writer, representation)
+	err = writeDotEdges(buffered, representation)
 	if err != nil {
 		return err
 	}
-	return writeDotClosing(writer)
+	err = writeDotClosing(buffered)
+	if err != nil {
+		return err
+	}
+	return buffered.Flush()
 }
 
 func writeDotPreamble(writer io.Writer, representation *Representation) error {
diff --git a/graphical/mermaid_writer.go b/graphical/mermaid_writer.go
index 2ce2a5e..4b34b7f 100644
--- a/graphical/mermaid_writer.go
+++ b/graphical/mermaid_writer.go
@@ -1,6 +1,7 @@
 package graphical
 
 import (
+	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -46,16 +47,21 @@ func WriteMermaidToFile(file *os.File, representation *Representation) error {
 // Mermaid.js file to the writer.  Returns an error when there was a
 // problem writing to the writer.
 func WriteMermaidToWriter(writer io.Writer, representation *Representation) error {
-	err := writeMermaidPreamble(writer)
+	// the buffered writer keeps the first error and reports it when flushed
+	buffered := bufio.NewWriter(writer)
+	err := writeMermaidPreamble(buffered)
 	if err != nil {
 		return err
 	}
-	err = writeMermaidNodes(writer, representation)
+	err = writeMermaidNodes(buffered, representation)
 	if err != nil {
 		return err
 	}
-	err = writeMermaidEdges(writer, representation)
-	return err
+	err = writeMermaidEdges(buffered, representation)
+	if err != nil {
+		return err
+	}
+	return buffered.Flush()
 }
 
 func writeMermaidPreamble(writer io.Writer) error {
-- 
2.43.0


From 622817e0ad485e616e99f2ca4b4781c501b0b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 14/33] fix: a cardinality constraint 'less than 0' is
 unsatisfiable instead of crashing the encoder

---
 encoding/cc_encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/cc_encoding.go b/encoding/cc_encoding.go
index 97bce7c..ae75e25 100644
--- a/encoding/cc_encoding.go
+++ b/encoding/cc_encoding.go
@@ -175,6 +175,10 @@ func exo(result Result, config *Config, vars []f.Variable) {
 }
 
 func amk(result Result, config *Config, rhs int, vars []f.Variable) {
+	if rhs < 0 { // less than 0 variables cannot be true
+		result.AddClause()
+		return
+	}
 	if rhs >= len(vars) { // there is no constraint
 		return
 	}
@@ -265,6 +269,10 @@ func amkIncremental(
 	vars []f.Variable,
 	rhs int,
 ) (*CCIncrementalData, error) {
+	if rhs < 0 { // less than 0 variables cannot be true
+		result.AddClause()
+		return nil, errorx.BadInput("contradiction AMK with rhs < 0")
+	}
 	if rhs >= len(vars) {
 		return nil, errorx.BadInput("tautology AMK with rhs > len(vars)")
 	}
-- 
2.43.0


From 2144fcb65888338e2896418d865cd9a0330a23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 15/33] fix: the normalization of an equation with zero
 coefficients uses the right literals

---
 encoding/normalize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/normalize.go b/encoding/normalize.go
index 7b39a4e..142cc23 100644
--- a/encoding/normalize.go
+++ b/encoding/normalize.go
@@ -25,6 +25,7 @@ func Normalize(fac f.Factory, constraint f.Formula) f.Formula {
 		copy(normCs, coefficients)
 		normRhs = rhs
 		f1 := normalizeLE(fac, normPs, normCs, normRhs)
+		copy(normPs, literals) // the first call may have compacted the literals
 		normCs = make([]int, len(literals))
 		for i := range literals {
 			normCs[i] = -coefficients[i]
-- 
2.43.0


From e67305065c119ff3279df8d4d7f5430bb1b260d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 16/33] fix: counting models or paths of a BDD no longer
 changes the cached counts

---
 bdd/operation.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index c292588..6da356a 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -182,8 +182,7 @@ func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
 	satcount := k.satCountRec(r, cacheidSatcou)
-	satcount.Mul(satcount, size)
-	return satcount
+	return new(big.Int).Mul(satcount, size)
 }
 
 func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
@@ -226,7 +225,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecOne(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecOne(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecOne(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
@@ -250,7 +249,7 @@ func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecZero(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecZero(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecZero(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
-- 
2.43.0


From c628935c95ddcf5043a461ac2676bace5664c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 17/33] fix: a pseudo-Boolean constraint no longer shares the
 slices of the caller

---
 formula/factory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formula/factory.go b/formula/factory.go
index 5472f5e..d8f54f7 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -2,6 +2,7 @@ package formula
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/booleworks/logicng-go/configuration"
@@ -726,8 +727,8 @@ func (fac *CachingFactory) constructPBC(comparator CSort, rhs int, literals []Li
 		return fac.Constant(evaluateTrivialPBConstraint(comparator, rhs))
 	}
 	pbc := pbc{
-		literals:     literals,
-		coefficients: coefficients,
+		literals:     slices.Clone(literals),
+		coefficients: slices.Clone(coefficients),
 		rhs:          rhs,
 		comparator:   comparator,
 	}
-- 
2.43.0


From 98f2b4bbf8d68374de9030c927638deea8534478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 18/33] fix: the results of Restrict, Exists and ForAll are
 referenced, so that no garbage collection frees them

---
 bdd/bdd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index ca2d54a..acaa28d 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -337,21 +337,24 @@ func (b *BDD) NumberOfCNFClauses() *big.Int {
 // the respective variables anymore.
 func (b *BDD) Restrict(restriction ...f.Literal) *BDD {
 	resBdd := CompileLiterals(restriction, b.Kernel)
-	return newBdd(b.Kernel.restrict(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.restrict(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Exists performs existential quantifier elimination for a given set of
 // variables and return the resulting BDD.
 func (b *BDD) Exists(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.exists(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.exists(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // ForAll performs universal quantifier elimination for a given set of
 // variables and returns the resulting BDD.
 func (b *BDD) ForAll(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.forAll(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.forAll(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Model returns an arbitrary model of the BDD.  An error is returned if the
-- 
2.43.0


From 1dabf9f007a6c010ae4561a103a516ac26a28903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 19/33] fix: a reordering no longer drops the references of
 nodes that are part of other BDDs

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index cfd9500..b937cbe 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -200,7 +200,7 @@ func (r *reordering) reorderDone() {
 	}
 	for n := int32(2); n < r.k.nodesize; n++ {
 		if r.k.marked(n) {
-			r.k.unmark(n)
+			r.k.unmarkNode(n)
 		} else {
 			r.k.setRefcou(n, 0)
 		}
-- 
2.43.0


From 62e7919753101a853509c1c968309020f3ca69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 20/33] fix: the variables to eliminate are looked up anew when
 an operation is redone after a reordering

---
 bdd/construction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index ff06d3f..d3a3dac 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -93,8 +93,8 @@ func (k *Kernel) restrict(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2svartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2svartable(variable)
 		return k.restrictRec(r, (variable<<3)|cacheidRestrict)
 	})
 }
@@ -145,8 +145,8 @@ func (k *Kernel) exists(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddOr, variable<<3)
 	})
 }
@@ -155,8 +155,8 @@ func (k *Kernel) forAll(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)
 	})
 }
-- 
2.43.0


From fb5d633420bb421c6875e85e623dda71fa8df3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 21/33] fix: the negation of a BDD no longer ignores a request
 to reorder

---
 bdd/construction.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index d3a3dac..1f17031 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -74,9 +74,15 @@ func (k *Kernel) notRec(r int32) (int32, bool) {
 	if entry.a == r && entry.c == bddNot.v {
 		return entry.res, false
 	}
-	node, _ := k.notRec(k.low(r))
+	node, reorder := k.notRec(k.low(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
-	node, _ = k.notRec(k.high(r))
+	node, reorder = k.notRec(k.high(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
 	res, reorder := k.makeNode(k.level(r), k.readRef(2), k.readRef(1))
 	if reorder {
-- 
2.43.0


From ae7fb8d8b53485187cfff012e214c4c477a53e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 22/33] fix: do not record a missing auxiliary literal for a
 factorized formula

PGCNF and TseitinCNF stored the zero literal for a formula below the
factorization boundary.  With a reused CNFAuxState a later formula containing
it used that literal and the resulting CNF was wrong.
---
 normalform/cnf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index d5480f6..abfe39a 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -284,7 +284,9 @@ func PGCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int, state
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		pg = assignment.Restrict(fac, pg, topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return pg
 }
 
@@ -394,7 +396,9 @@ func TseitinCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int,
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		tseitin = assignment.Restrict(fac, state.FormulaMap[nnf], topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return tseitin
 }
 
-- 
2.43.0


From 2c6d117d3451ce0bc0559bd644e8a5b6f794c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 23/33] fix: the BDD of an empty conjunction of literals is
 true

CompileLiterals compiles a conjunction of literals, but gave the constant
false for an empty list of literals.
---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index acaa28d..3855b3e 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -104,7 +104,7 @@ func CompileWithKernelAndHandler(
 func CompileLiterals(literals []f.Literal, kernel *Kernel) *BDD {
 	var bdd int32
 	if len(literals) == 0 {
-		bdd = bddFalse
+		bdd = bddTrue
 	} else if len(literals) == 1 {
 		lit := literals[0]
 		variable := lit.Variable()
-- 
2.43.0


From a3782683c61318690c68b9a19fbc2159ca7c7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 24/33] fix: BDD.ToFormula honours its followPathsToTrue
 argument

The optional argument was only read if at least two values were passed, so
ToFormula(fac, false) followed the paths to true.
---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 3855b3e..57592f3 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -228,7 +228,7 @@ func compile(fac f.Factory, formula f.Formula, kernel *Kernel, hdl handler.Handl
 // respectively.
 func (b *BDD) ToFormula(fac f.Factory, followPathsToTrue ...bool) f.Formula {
 	var fptt bool
-	if len(followPathsToTrue) > 1 {
+	if len(followPathsToTrue) > 0 {
 		fptt = followPathsToTrue[0]
 	} else {
 		fptt = true
-- 
2.43.0


From b855d7d2cff18968753aaa267e0b7a6383c2bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 25/33] fix: do not hand out the path count stored in the cache
 of a BDD kernel

PathCountOne, PathCountZero and NumberOfCNFClauses returned the cached big.Int
itself, so that a caller who computed on with it in place changed all later
counts.
---
 bdd/operation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index 6da356a..6986792 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -209,7 +209,7 @@ func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountOne(r int32) *big.Int {
-	return k.pathCountRecOne(r, cacheidPathcouOne)
+	return new(big.Int).Set(k.pathCountRecOne(r, cacheidPathcouOne))
 }
 
 func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
@@ -233,7 +233,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountZero(r int32) *big.Int {
-	return k.pathCountRecZero(r, cacheidPathcouZero)
+	return new(big.Int).Set(k.pathCountRecZero(r, cacheidPathcouZero))
 }
 
 func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
-- 
2.43.0


From c323b70060d78cbdcd14fa09ae9019c1b72c886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 26/33] fix: encode a cardinality constraint given as PBC with
 the given configuration

---
 encoding/pbc_encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/pbc_encoding.go b/encoding/pbc_encoding.go
index 5b4369d..2089812 100644
--- a/encoding/pbc_encoding.go
+++ b/encoding/pbc_encoding.go
@@ -31,7 +31,7 @@ func EncodePBC(fac f.Factory, pbc f.Formula, config ...*Config) ([]f.Formula, er
 // Returns an error if the input constraint is no valid pseudo-Boolean constraint.
 func EncodePBCInResult(fac f.Factory, pbc f.Formula, result Result, config ...*Config) error {
 	if pbc.Sort() == f.SortCC {
-		return EncodeCCInResult(fac, pbc, result)
+		return EncodeCCInResult(fac, pbc, result, config...)
 	}
 	if pbc.Sort() != f.SortPBC {
 		return errorx.BadFormulaSort(pbc.Sort())
-- 
2.43.0


From 78758001209a36b0581802ba5c43c24ea6ef72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 27/33] fix: let LinearSU, WMSU3 and OLL use the MaxSAT
 configuration of the factory

---
 maxsat/solver.go | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/maxsat/solver.go b/maxsat/solver.go
index 208f596..31a372a 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -95,17 +95,26 @@ func determineConfig(fac f.Factory, initConfig []*Config) *Config {
 	return configFromFactory.(*Config)
 }
 
+// iterativeByDefault returns the given configuration.  If none is given and
+// there is none in the factory, the default configuration with the iterative
+// strategy is returned.
+func iterativeByDefault(fac f.Factory, initConfig []*Config) []*Config {
+	if len(initConfig) > 0 {
+		return initConfig
+	}
+	if _, ok := fac.ConfigurationFor(configuration.MaxSat); ok {
+		return nil
+	}
+	cfg := DefaultConfig()
+	cfg.IncrementalStrategy = IncIterative
+	return []*Config{cfg}
+}
+
 // LinearSU generates a new MAX-SAT solver with the Linear Sat-Unsat algorithm.
 // This algorithm is based on linear search and supports both weighted and
 // partial MAX-SAT problems.
 func LinearSU(fac f.Factory, config ...*Config) *Solver {
-	var cfg *Config
-	if len(config) > 0 {
-		cfg = config[0]
-	} else {
-		cfg = DefaultConfig()
-	}
-	return newSolver(fac, AlgLinearSU, cfg)
+	return newSolver(fac, AlgLinearSU, config...)
 }
 
 // LinearUS generates a new MAX-SAT solver with the Linear Unsat-Sat algorithm.
@@ -126,14 +135,7 @@ func MSU3(fac f.Factory, config ...*Config) *Solver {
 // seminal-core guided algorithm. This algorithm is based on unsat cores and
 // supports both partial and weighted MAX-SAT problems.
 func WMSU3(fac f.Factory, config ...*Config) *Solver {
-	var cfg *Config
-	if len(config) > 0 {
-		cfg = config[0]
-	} else {
-		cfg = DefaultConfig()
-		cfg.IncrementalStrategy = IncIterative
-	}
-	return newSolver(fac, AlgWMSU3, cfg)
+	return newSolver(fac, AlgWMSU3, iterativeByDefault(fac, config)...)
 }
 
 // WBO generates a new MAX-SAT solver with the Weighted Boolean Optimization
@@ -154,14 +156,7 @@ func IncWBO(fac f.Factory, config ...*Config) *Solver {
 // based on unsat cores and supports both partial and weighted MAX-SAT
 // problems.
 func OLL(fac f.Factory, config ...*Config) *Solver {
-	var cfg *Config
-	if len(config) > 0 {
-		cfg = config[0]
-	} else {
-		cfg = DefaultConfig()
-		cfg.IncrementalStrategy = IncIterative
-	}
-	return newSolver(fac, AlgOLL, cfg)
+	return newSolver(fac, AlgOLL, iterativeByDefault(fac, config)...)
 }
 
 // AddHardFormula adds the given formulas as hard formulas to the solver which
-- 
2.43.0


From 291a9941cb9aa08009b6215666f2529f6ab939aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:10 +0000
Subject: [PATCH 28/33] fix: return the variables of an assignment in a fixed
 order

PosVars and NegVars collected them in the order of the map.
---
 assignment/assignment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/assignment/assignment.go b/assignment/assignment.go
index 76bc928..fe7e591 100644
--- a/assignment/assignment.go
+++ b/assignment/assignment.go
@@ -58,6 +58,7 @@ func (a *Assignment) PosVars() []f.Variable {
 	for l := range a.pos {
 		slice = append(slice, f.EncodeVariable(l))
 	}
+	slices.Sort(slice)
 	return slice
 }
 
@@ -68,6 +69,7 @@ func (a *Assignment) NegVars() []f.Variable {
 	for l := range a.neg {
 		slice = append(slice, f.EncodeVariable(l))
 	}
+	slices.Sort(slice)
 	return slice
 }
 
-- 
2.43.0


From 0ac1d22c8924839f903837f2aa27843b0fa2391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:10 +0000
Subject: [PATCH 29/33] fix: the same seed gives the same cardinality
 constraints

The variables drawn for AMO, EXO and CC were taken in the order of a map, so
the constraints differed from run to run with the same seed.
---
 randomizer/formula_randomizer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index 066e2ea..26f4b72 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/rand"
+	"slices"
 
 	"github.com/booleworks/logicng-go/configuration"
 	f "github.com/booleworks/logicng-go/formula"
@@ -364,6 +365,7 @@ func (r *FormulaRandomizer) ccVariables() []f.Variable {
 	for v := range variables {
 		vars = append(vars, v)
 	}
+	slices.Sort(vars)
 	return vars
 }
 
-- 
2.43.0


From 3a808ab04ae8004586fd3685a719083fe538a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:11 +0000
Subject: [PATCH 30/33] fix: add the constraints of a minimum prime implicant
 in a fixed order

The loop over the map created auxiliary variables and clauses in its order.
---
 primeimplicant/minimum_implicant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primeimplicant/minimum_implicant.go b/primeimplicant/minimum_implicant.go
index e3a4a68..4c1cde5 100644
--- a/primeimplicant/minimum_implicant.go
+++ b/primeimplicant/minimum_implicant.go
@@ -35,7 +35,7 @@ func Minimum(fac f.Factory, formula f.Formula) ([]f.Literal, error) {
 	solver := sat.NewSolver(fac)
 	solver.Add(substituted)
 
-	for _, literal := range newVar2oldLit {
+	for _, literal := range literals.Content() {
 		if literal.IsPos() && literals.Contains(literal.Negate(fac)) {
 			name, _, _ := fac.LitNamePhase(literal)
 			solver.Add(fac.AMO(fac.Var(name+pos), fac.Var(name+neg)))
-- 
2.43.0


From d679eae96f33e86428dc9020655db2fca73af812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:11 +0000
Subject: [PATCH 31/33] fix: the minimum set cover does not depend on the order
 of a map

---
 np/set_cover.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/np/set_cover.go b/np/set_cover.go
index abca248..8ee4254 100644
--- a/np/set_cover.go
+++ b/np/set_cover.go
@@ -6,7 +6,7 @@ import (
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/maxsat"
-	"github.com/emirpasic/gods/maps/hashmap"
+	"github.com/emirpasic/gods/maps/linkedhashmap"
 	"github.com/emirpasic/gods/sets/linkedhashset"
 )
 
@@ -20,9 +20,11 @@ func MinimumSetCover[T any](sets [][]T) [][]T {
 		return [][]T{}
 	}
 	setMap := make(map[f.Variable][]T)
-	elementOccurrences := hashmap.New()
+	setVars := make([]f.Variable, 0, len(sets))
+	elementOccurrences := linkedhashmap.New()
 	for _, set := range sets {
 		setVar := fac.Var(fmt.Sprintf("@SET_SEL_%d", len(setMap)))
+		setVars = append(setVars, setVar)
 		setMap[setVar] = set
 		for _, element := range set {
 			occs, ok := elementOccurrences.Get(element)
@@ -42,7 +44,7 @@ func MinimumSetCover[T any](sets [][]T) [][]T {
 		})
 		solver.AddHardFormula(fac.Or(f.VariablesAsFormulas(ops)...))
 	}
-	for setVar := range setMap {
+	for _, setVar := range setVars {
 		_ = solver.AddSoftFormula(setVar.Negate(fac).AsFormula(), 1)
 	}
 	solverResult := solver.Solve()
@@ -52,7 +54,7 @@ func MinimumSetCover[T any](sets [][]T) [][]T {
 	model := solverResult.Model
 	pos := f.NewVarSet(model.PosVars()...)
 	var minimumCover []f.Variable
-	for key := range setMap {
+	for _, key := range setVars {
 		if pos.Contains(key) {
 			minimumCover = append(minimumCover, key)
 		}
-- 
2.43.0


From cb956a9765b265ce6b1db7e75549429652143e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 32/33] fix: count the levels of a learnt clause in a table of
 levels, not of variables

---
 sat/core.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index df322aa..e34a8d1 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -72,6 +72,7 @@ type CoreSolver struct {
 
 	watchesBin            [][]*watcher
 	permDiff              []int
+	levelDiff             []int
 	lastDecisionLevel     []int32
 	lbdQueue              boundedQueue
 	trailQueue            boundedQueue
@@ -184,6 +185,7 @@ func initialize(m *CoreSolver, config *Config) {
 
 	m.watchesBin = [][]*watcher{}
 	m.permDiff = []int{}
+	m.levelDiff = []int{}
 	m.lastDecisionLevel = []int32{}
 	m.lbdQueue = *newBoundedQueue()
 	m.trailQueue = *newBoundedQueue()
@@ -1025,8 +1027,11 @@ func (m *CoreSolver) computeLBD(lits *[]int32) int {
 	m.myflag++
 	for i := 0; i < len(*lits); i++ {
 		l := m.v((*lits)[i]).level
-		if m.permDiff[l] != m.myflag {
-			m.permDiff[l] = m.myflag
+		for l >= len(m.levelDiff) { // there can be more levels than variables
+			m.levelDiff = append(m.levelDiff, 0)
+		}
+		if m.levelDiff[l] != m.myflag {
+			m.levelDiff[l] = m.myflag
 			nbLevels++
 		}
 	}
-- 
2.43.0


From 2ee3ab0d16f06a4b3cf176976c957dd71c76dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 33/33] fix: keep the start of the lemmas when the proof ends
 in one

---
 sat/proofs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sat/proofs.go b/sat/proofs.go
index 7a191f9..1ad9ac1 100644
--- a/sat/proofs.go
+++ b/sat/proofs.go
@@ -113,7 +113,9 @@ func (s *drupSolver) parse() bool {
 		}
 		clauseNr++
 		if clause == nil {
-			s.lemmas = len(s.db) + 1
+			if nZeros >= 0 { // the proof has no lemma
+				s.lemmas = len(s.db) + 1
+			}
 			break
 		}
 		toks := make([]int, 0, len(clause)-1)
-- 
2.43.0

