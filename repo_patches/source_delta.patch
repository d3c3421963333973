From 69c22b37102a4f4c90682d46609aa30e6f953213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 01/36] fix: a failure in teardown after Skip() fails the spec

When a spec called Skip() and a JustAfterEach, AfterEach, AfterAll or
DeferCleanup then failed or panicked, the spec stayed 'skipped' and the
suite succeeded.
---
 internal/group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 02c9fe4..3727ee3 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -285,7 +285,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			afterNodeWasRun[node.ID] = true
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
-			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted {
+			skippedThenFailed := g.suite.currentSpecReport.State == types.SpecStateSkipped && state.Is(types.SpecStateFailureStates)
+			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted || skippedThenFailed {
 				g.suite.currentSpecReport.State = state
 				g.suite.currentSpecReport.Failure = failure
 			} else if state.Is(types.SpecStateFailureStates) {
-- 
2.43.0


From 901377cf2dbd5642e8f7b80fdde01240214e417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 02/36] fix: MustPassRepeatedly inside a FlakeAttempts
 container repeats the spec

MustPassRepeatedly takes precedence over FlakeAttempts when the number of
attempts is computed, but the FlakeAttempts branch then stopped after the
first passing attempt.
---
 internal/group.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 3727ee3..a614356 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -341,8 +341,7 @@ func (g *group) run(specs Specs) {
 				if attempt > 0 {
 					if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 						g.suite.handleSpecEvent(types.SpecEvent{SpecEventType: types.SpecEventSpecRepeat, Attempt: attempt})
-					}
-					if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
+					} else if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
 						g.suite.handleSpecEvent(types.SpecEvent{SpecEventType: types.SpecEventSpecRetry, Attempt: attempt})
 					}
 				}
@@ -358,8 +357,7 @@ func (g *group) run(specs Specs) {
 					if g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates | types.SpecStateSkipped) {
 						break
 					}
-				}
-				if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
+				} else if g.suite.currentSpecReport.MaxFlakeAttempts > 0 {
 					if g.suite.currentSpecReport.State.Is(types.SpecStatePassed | types.SpecStateSkipped | types.SpecStateAborted | types.SpecStateInterrupted) {
 						break
 					} else if attempt < maxAttempts-1 {
-- 
2.43.0


From 1369a961a3dc80f11cc9b3bdbac426f20664c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 03/36] fix: a Skip() or retry in a nested OncePerOrdered node
 does not run the AfterAll of the enclosing container early

Nodes at the same nesting level can be run once for different containers.
---
 internal/group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index a614356..28f0d83 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -253,7 +253,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 				if isLastSpecWithPair {
 					return true //...we're the last spec, so we should run the AfterNode
 				}
-				if !terminatingPair.isZero() && terminatingNode.NestingLevel == node.NestingLevel {
+				if terminatingPair.containerID == pair.containerID && terminatingNode.NestingLevel == node.NestingLevel {
 					return true //...or, a run-once node at our nesting level was skipped which means this is our last chance to run
 				}
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
@@ -268,7 +268,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 					if node.NodeType.Is(types.NodeTypeCleanupAfterEach | types.NodeTypeCleanupAfterAll) {
 						return terminatingNode.ID == node.NodeIDWhereCleanupWasGenerated // we should run this node if we're a clean-up generated by it
 					} else {
-						return terminatingNode.NestingLevel == node.NestingLevel // ...or if we're at the same nesting level
+						return terminatingPair.containerID == pair.containerID && terminatingNode.NestingLevel == node.NestingLevel // ...or if we're at the same nesting level and run once for the same container
 					}
 				}
 			case types.SpecStateInterrupted, types.SpecStateAborted: // ...we've been interrupted and/or aborted
-- 
2.43.0


From 8d009b81ddc7a87d02247ddcc3fd7e170b53f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 04/36] fix: MustPassRepeatedly in an Ordered container runs
 AfterAll once, after the last repetition

The first failing attempt is the last one of a spec that must pass
repeatedly, so AfterAll has to run after it; a passing attempt that will
be repeated is not.
---
 internal/group.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 28f0d83..b862a4d 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -176,7 +176,7 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 	return lastSpecID == specID
 }
 
-func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
+func (g *group) attemptSpec(isFinalIfPassing bool, isFinalIfFailing bool, spec Spec) bool {
 	failedInARunOnceBefore := false
 	pairs := g.runOncePairs[spec.SubjectID()]
 
@@ -248,7 +248,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 
 			switch g.suite.currentSpecReport.State {
 			case types.SpecStatePassed: //this attempt is passing...
-				return isLastSpecWithPair //...we should run-once if we'this is our last chance
+				return isLastSpecWithPair && isFinalIfPassing //...we should run-once if this is our last chance
 			case types.SpecStateSkipped: //the spec was skipped by the user...
 				if isLastSpecWithPair {
 					return true //...we're the last spec, so we should run the AfterNode
@@ -257,7 +257,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 					return true //...or, a run-once node at our nesting level was skipped which means this is our last chance to run
 				}
 			case types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout: // the spec has failed...
-				if isFinalAttempt {
+				if isFinalIfFailing {
 					if g.continueOnFailure {
 						return isLastSpecWithPair || failedInARunOnceBefore //...we're configured to continue on failures - so we should only run if we're the last spec for this pair or if we failed in a runOnceBefore (which means we _are_ the last spec to run)
 					} else {
@@ -346,7 +346,8 @@ func (g *group) run(specs Specs) {
 					}
 				}
 
-				failedInARunOnceBefore = g.attemptSpec(attempt == maxAttempts-1, spec)
+				isLastAttempt, mustPassRepeatedly := attempt == maxAttempts-1, g.suite.currentSpecReport.MaxMustPassRepeatedly > 0
+				failedInARunOnceBefore = g.attemptSpec(isLastAttempt || !mustPassRepeatedly, isLastAttempt || mustPassRepeatedly, spec)
 
 				g.suite.currentSpecReport.EndTime = time.Now()
 				g.suite.currentSpecReport.RunTime = g.suite.currentSpecReport.EndTime.Sub(g.suite.currentSpecReport.StartTime)
-- 
2.43.0


From dda05fa448865a8badd035fc64d27928b335915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 05/36] fix: AfterAll runs even if the remaining specs in an
 Ordered container are skipped

Run-once After and clean-up nodes were left to the last spec in the
container. If that spec was then skipped (interrupt, abort, fail-fast,
deadline, Skip() in a nested BeforeAll, a failing reporting node...) they
never ran and their clean-up nodes leaked into later specs.
---
 internal/group.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index b862a4d..08ac1ed 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -93,6 +93,7 @@ type group struct {
 	specs          Specs
 	runOncePairs   map[uint]runOncePairs
 	runOnceTracker map[runOncePair]types.SpecState
+	pendingPairs   map[runOncePair]bool // pairs whose After and cleanup nodes have been left for a later spec in the group to run
 
 	succeeded              bool
 	failedInARunOnceBefore bool
@@ -104,6 +105,7 @@ func newGroup(suite *Suite) *group {
 		suite:                  suite,
 		runOncePairs:           map[uint]runOncePairs{},
 		runOnceTracker:         map[runOncePair]types.SpecState{},
+		pendingPairs:           map[runOncePair]bool{},
 		succeeded:              true,
 		failedInARunOnceBefore: false,
 		continueOnFailure:      false,
@@ -176,6 +178,18 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 	return lastSpecID == specID
 }
 
+// isLastChanceToCleanUp returns true if earlier specs have left After or cleanup nodes for this spec to run
+func (g *group) isLastChanceToCleanUp(spec Spec) bool {
+	for _, pair := range g.runOncePairs[spec.SubjectID()] {
+		if g.pendingPairs[pair] && g.isLastSpecWithPair(spec.SubjectID(), pair) {
+			return true
+		}
+	}
+	return false
+}
+
+// attemptSpec runs the nodes associated with spec.  If the spec has already been skipped (or has already failed) only After and cleanup nodes
+// left pending by earlier specs are run.
 func (g *group) attemptSpec(isFinalIfPassing bool, isFinalIfFailing bool, spec Spec) bool {
 	failedInARunOnceBefore := false
 	pairs := g.runOncePairs[spec.SubjectID()]
@@ -185,6 +199,10 @@ func (g *group) attemptSpec(isFinalIfPassing bool, isFinalIfFailing bool, spec S
 	nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeJustBeforeEach).SortedByAscendingNestingLevel()...)
 	nodes = append(nodes, spec.Nodes.FirstNodeWithType(types.NodeTypeIt))
 	terminatingNode, terminatingPair := Node{}, runOncePair{}
+	onlyCleanUp := g.suite.currentSpecReport.NumAttempts == 0
+	if onlyCleanUp {
+		nodes = Nodes{}
+	}
 
 	deadline := time.Time{}
 	if spec.SpecTimeout() > 0 {
@@ -241,10 +259,14 @@ func (g *group) attemptSpec(isFinalIfPassing bool, isFinalIfFailing bool, spec S
 			}
 			if pair.isZero() {
 				// this node is not governed by any run-once policy, we should run it
-				return true
+				return !onlyCleanUp
 			}
 			// it's our last chance to run if we're the last spec for our oncePair
 			isLastSpecWithPair := g.isLastSpecWithPair(spec.SubjectID(), pair)
+			if onlyCleanUp {
+				return isLastSpecWithPair && g.pendingPairs[pair]
+			}
+			g.pendingPairs[pair] = true
 
 			switch g.suite.currentSpecReport.State {
 			case types.SpecStatePassed: //this attempt is passing...
@@ -283,6 +305,8 @@ func (g *group) attemptSpec(isFinalIfPassing bool, isFinalIfFailing bool, spec S
 
 		for _, node := range nodes {
 			afterNodeWasRun[node.ID] = true
+			delete(g.pendingPairs, pairs.runOncePairFor(node.ID))
+			delete(g.pendingPairs, pairs.runOncePairFor(node.NodeIDWhereCleanupWasGenerated))
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
 			skippedThenFailed := g.suite.currentSpecReport.State == types.SpecStateSkipped && state.Is(types.SpecStateFailureStates)
@@ -370,6 +394,15 @@ func (g *group) run(specs Specs) {
 			}
 		}
 
+		if skip && g.isLastChanceToCleanUp(spec) {
+			g.suite.writer.Truncate()
+			g.suite.outputInterceptor.StartInterceptingOutput()
+			g.attemptSpec(true, true, spec)
+			g.suite.currentSpecReport.EndTime = time.Now()
+			g.suite.currentSpecReport.CapturedGinkgoWriterOutput += string(g.suite.writer.Bytes())
+			g.suite.currentSpecReport.CapturedStdOutErr += g.suite.outputInterceptor.StopInterceptingAndReturnOutput()
+		}
+
 		g.suite.reportEach(spec, types.NodeTypeReportAfterEach)
 		g.suite.processCurrentSpecReport()
 		if g.suite.currentSpecReport.State.Is(types.SpecStateFailureStates) {
-- 
2.43.0


From 63a8355516e2abc33412d991f488d7848475c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 06/36] fix: a failure on process 1 in SynchronizedAfterSuite
 is not hidden by a Skip() in its all-processes part

---
 internal/suite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3edf507..7ba7665 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -691,7 +691,7 @@ func (suite *Suite) runSuiteNode(node Node) {
 				node.Body = node.SynchronizedAfterSuiteProc1Body
 				node.HasContext = node.SynchronizedAfterSuiteProc1BodyHasContext
 				state, failure := suite.runNode(node, time.Time{}, "")
-				if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
+				if suite.currentSpecReport.State.Is(types.SpecStatePassed) || (suite.currentSpecReport.State.Is(types.SpecStateSkipped) && state.Is(types.SpecStateFailureStates)) {
 					suite.currentSpecReport.State, suite.currentSpecReport.Failure = state, failure
 				}
 			}
-- 
2.43.0


From f3aeabe4119d8edb19f7148b2808e7ca0507bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 07/36] fix: AfterAll runs even if a BeforeEach outside the
 Ordered container fails for a later spec

The container has been entered by earlier specs, and no later spec will
run its After nodes.
---
 internal/group.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 08ac1ed..c330a03 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -233,7 +233,9 @@ func (g *group) attemptSpec(isFinalIfPassing bool, isFinalIfFailing bool, spec S
 		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
 		if !terminatingNode.IsZero() {
-			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
+			nodes = nodes.Filter(func(node Node) bool {
+				return node.NestingLevel <= terminatingNode.NestingLevel || g.pendingPairs[pairs.runOncePairFor(node.ID)]
+			})
 		}
 		if includeDeferCleanups {
 			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
-- 
2.43.0


From ed1c3e2b8d6ee923f5cd76ef612b3aed9b886ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 08/36] fix: a failing JustBeforeEach does not skip the
 AfterEach nodes of inner containers

JustBeforeEach nodes run after every BeforeEach, so all nesting levels
have been entered and have to be cleaned up.
---
 internal/group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index c330a03..63a3f21 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -232,7 +232,7 @@ func (g *group) attemptSpec(isFinalIfPassing bool, isFinalIfFailing bool, spec S
 		nodes := spec.Nodes.WithType(types.NodeTypeAfterEach)
 		nodes = append(nodes, spec.Nodes.WithType(types.NodeTypeAfterAll)...).SortedByDescendingNestingLevel()
 		nodes = append(spec.Nodes.WithType(types.NodeTypeJustAfterEach).SortedByDescendingNestingLevel(), nodes...)
-		if !terminatingNode.IsZero() {
+		if !terminatingNode.IsZero() && !terminatingNode.NodeType.Is(types.NodeTypeJustBeforeEach) { // JustBeforeEaches run after the BeforeEaches at all nesting levels
 			nodes = nodes.Filter(func(node Node) bool {
 				return node.NestingLevel <= terminatingNode.NestingLevel || g.pendingPairs[pairs.runOncePairFor(node.ID)]
 			})
-- 
2.43.0


From f3d43c5339499d8e0294987f9b37d9d04d202887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 09/36] fix: consistsOf in a label filter treats its argument
 as a set

---
 types/label_filter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types/label_filter.go b/types/label_filter.go
index 40a909b..6a99544 100644
--- a/types/label_filter.go
+++ b/types/label_filter.go
@@ -92,12 +92,16 @@ func containsAllLabelSetAction(key string, expectedValues []string) LabelFilter
 }
 
 func consistsOfLabelSetAction(key string, expectedValues []string) LabelFilter {
+	expectedSet := map[string]bool{}
+	for _, value := range expectedValues {
+		expectedSet[value] = true
+	}
 	return func(labels []string) bool {
 		set := labelSetFor(key, labels)
-		if len(set) != len(expectedValues) {
+		if len(set) != len(expectedSet) {
 			return false
 		}
-		for _, value := range expectedValues {
+		for value := range expectedSet {
 			if !set[value] {
 				return false
 			}
-- 
2.43.0


From 7dbca8b4fd4c400b988daffc67a9be8d3d95c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 10/36] fix: a label filter set operation may be followed
 directly by an operator or its {} argument

---
 types/label_filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/label_filter.go b/types/label_filter.go
index 6a99544..cb416ca 100644
--- a/types/label_filter.go
+++ b/types/label_filter.go
@@ -371,7 +371,7 @@ func tokenize(input string) func() (*treeNode, error) {
 
 		if lastToken == lfTokenSetKey {
 			//we should get a valid set operation next
-			value, n := consumeUntil(" )")
+			value, n := consumeUntil(" &|!,()/{")
 			if validSetOperations[strings.ToLower(value)] == "" {
 				return &treeNode{}, GinkgoErrors.SyntaxErrorParsingLabelFilter(input, i, fmt.Sprintf("Invalid set operation '%s'.", value))
 			}
-- 
2.43.0


From 2b4bd96884f3e50c36c1184e90325f758f8e4092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 11/36] fix: inline flags in one --focus or --skip expression
 don't apply to the others

---
 internal/focus.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/focus.go b/internal/focus.go
index e3da7d1..ebb344a 100644
--- a/internal/focus.go
+++ b/internal/focus.go
@@ -57,8 +57,8 @@ This function sets the `Skip` property on specs by applying Ginkgo's focus polic
 *Note:* specs with pending nodes are Skipped when created by NewSpec.
 */
 func ApplyFocusToSpecs(specs Specs, description string, suiteLabels Labels, suiteConfig types.SuiteConfig) (Specs, bool) {
-	focusString := strings.Join(suiteConfig.FocusStrings, "|")
-	skipString := strings.Join(suiteConfig.SkipStrings, "|")
+	focusString := orRegexps(suiteConfig.FocusStrings)
+	skipString := orRegexps(suiteConfig.SkipStrings)
 
 	type SkipCheck func(spec Spec) bool
 
@@ -120,3 +120,12 @@ func ApplyFocusToSpecs(specs Specs, description string, suiteLabels Labels, suit
 
 	return processedSpecs, hasProgrammaticFocus
 }
+
+// orRegexps combines regular expressions into one that matches if any of them does.
+// Each is grouped so that inline flags such as (?i) don't leak into the next one.
+func orRegexps(expressions []string) string {
+	if len(expressions) < 2 {
+		return strings.Join(expressions, "|")
+	}
+	return "(?:" + strings.Join(expressions, ")|(?:") + ")"
+}
-- 
2.43.0


From c0eb54df8f67818e9874d0586b6fb4099f6a2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 12/36] fix: merging coverprofiles with additional blocks at
 the end of a file does not panic

---
 ginkgo/internal/gocovmerge.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index 87cfa11..fd89b08 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -88,12 +88,7 @@ func mergeProfileBlock(p *cover.Profile, pb cover.ProfileBlock, startIndex int)
 		return pi.StartLine >= pb.StartLine && (pi.StartLine != pb.StartLine || pi.StartCol >= pb.StartCol)
 	}
 
-	i := 0
-	if !sortFunc(i) {
-		i = sort.Search(len(p.Blocks)-startIndex, sortFunc)
-	}
-
-	i += startIndex
+	i := startIndex + sort.Search(len(p.Blocks)-startIndex, sortFunc)
 	if i < len(p.Blocks) && p.Blocks[i].StartLine == pb.StartLine && p.Blocks[i].StartCol == pb.StartCol {
 		if p.Blocks[i].EndLine != pb.EndLine || p.Blocks[i].EndCol != pb.EndCol {
 			return i, fmt.Errorf("gocovmerge: overlapping merge %v %v %v", p.FileName, p.Blocks[i], pb)
-- 
2.43.0


From 85bbdc00cba8ff2ed965b6fd4efd97547c75ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 13/36] fix: coverprofiles that cannot be merged are reported
 as an error instead of dropping counts

---
 ginkgo/internal/gocovmerge.go           | 20 +++++++++++++-------
 ginkgo/internal/profiles_and_reports.go |  5 ++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index fd89b08..0c8b936 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -36,16 +36,22 @@ import (
 	"golang.org/x/tools/cover"
 )
 
-func AddCoverProfile(profiles []*cover.Profile, p *cover.Profile) []*cover.Profile {
+func AddCoverProfile(profiles []*cover.Profile, p *cover.Profile) ([]*cover.Profile, error) {
+	if len(profiles) > 0 && profiles[0].Mode != p.Mode {
+		return profiles, fmt.Errorf("cannot merge profiles with different modes")
+	}
+
 	i := sort.Search(len(profiles), func(i int) bool { return profiles[i].FileName >= p.FileName })
 	if i < len(profiles) && profiles[i].FileName == p.FileName {
-		MergeCoverProfiles(profiles[i], p)
+		if err := MergeCoverProfiles(profiles[i], p); err != nil {
+			return profiles, err
+		}
 	} else {
 		profiles = append(profiles, nil)
 		copy(profiles[i+1:], profiles[i:])
 		profiles[i] = p
 	}
-	return profiles
+	return profiles, nil
 }
 
 func DumpCoverProfiles(profiles []*cover.Profile, out io.Writer) error {
@@ -105,13 +111,13 @@ func mergeProfileBlock(p *cover.Profile, pb cover.ProfileBlock, startIndex int)
 	} else {
 		if i > 0 {
 			pa := p.Blocks[i-1]
-			if pa.EndLine >= pb.EndLine && (pa.EndLine != pb.EndLine || pa.EndCol > pb.EndCol) {
+			if pa.EndLine > pb.StartLine || (pa.EndLine == pb.StartLine && pa.EndCol > pb.StartCol) {
 				return i, fmt.Errorf("gocovmerge: overlap before %v %v %v", p.FileName, pa, pb)
 			}
 		}
-		if i < len(p.Blocks)-1 {
-			pa := p.Blocks[i+1]
-			if pa.StartLine <= pb.StartLine && (pa.StartLine != pb.StartLine || pa.StartCol < pb.StartCol) {
+		if i < len(p.Blocks) {
+			pa := p.Blocks[i]
+			if pa.StartLine < pb.EndLine || (pa.StartLine == pb.EndLine && pa.StartCol < pb.EndCol) {
 				return i, fmt.Errorf("gocovmerge: overlap after %v %v %v", p.FileName, pa, pb)
 			}
 		}
diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 8e16d2b..52e92be 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -154,7 +154,10 @@ func MergeAndCleanupCoverProfiles(profiles []string, destination string) error {
 		}
 		os.Remove(file)
 		for _, p := range parsedProfiles {
-			merged = AddCoverProfile(merged, p)
+			merged, err = AddCoverProfile(merged, p)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	dst, err := os.OpenFile(destination, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
-- 
2.43.0


From 8f0820ef6ba953dcb1cbfa0b0f2b84ef971f8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 14/36] fix: a parallel process that was killed by a signal no
 longer counts as alive

---
 ginkgo/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 41052ea..07bc295 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -219,7 +219,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
 		procOutput[proc-1] = buf
-		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil || !cmd.ProcessState.Exited() })
+		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil })
 
 		go func() {
 			cmd.Wait()
-- 
2.43.0


From 3801795857c8d62af00b376fe3b5fb64a14c2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 15/36] fix: writing to an unreachable server over HTTP returns
 an error instead of panicking

---
 internal/parallel_support/http_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parallel_support/http_client.go b/internal/parallel_support/http_client.go
index 4aa10ae..5630df0 100644
--- a/internal/parallel_support/http_client.go
+++ b/internal/parallel_support/http_client.go
@@ -158,6 +158,9 @@ func (client *httpClient) ShouldAbort() bool {
 
 func (client *httpClient) Write(p []byte) (int, error) {
 	resp, err := http.Post(client.serverHost+"/emit-output", "text/plain;charset=UTF-8 ", bytes.NewReader(p))
+	if err != nil {
+		return 0, err
+	}
 	resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return 0, fmt.Errorf("failed to emit output")
-- 
2.43.0


From 99002382f857455ab4852440ac10bc223b97639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 16/36] fix: --timeout=0 passed to the ginkgo CLI reaches the
 suite

---
 types/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/config.go b/types/config.go
index 2e827ef..1d4e31b 100644
--- a/types/config.go
+++ b/types/config.go
@@ -300,7 +300,7 @@ var SuiteConfigFlags = GinkgoFlags{
 	{KeyPath: "S.SourceRoots", Name: "source-root", SectionKey: "debug",
 		Usage: "The location to look for source code when generating progress reports.  You can pass multiple --source-root flags."},
 	{KeyPath: "S.Timeout", Name: "timeout", SectionKey: "debug", UsageDefaultValue: "1h",
-		Usage: "Test suite fails if it does not complete within the specified timeout."},
+		Usage: "Test suite fails if it does not complete within the specified timeout.", AlwaysExport: true},
 	{KeyPath: "S.GracePeriod", Name: "grace-period", SectionKey: "debug", UsageDefaultValue: "30s",
 		Usage: "When interrupted, Ginkgo will wait for GracePeriod for the current running node to exit before moving on to the next one."},
 	{KeyPath: "S.OutputInterceptorMode", Name: "output-interceptor-mode", SectionKey: "debug", UsageArgument: "dup, swap, or none",
-- 
2.43.0


From bbeadc5716bce1cf14ded61606a1b54b2f43b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 17/36] fix: the representation of a report entry value that
 encodes as null survives encoding

---
 types/report_entry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/report_entry.go b/types/report_entry.go
index 63f7a9f..a3f7ecd 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -26,7 +26,8 @@ func (rev ReportEntryValue) GetRawValue() any {
 
 func (rev ReportEntryValue) String() string {
 	if rev.raw == nil {
-		return ""
+		// a value that was decoded from JSON "null", such as a nil slice, still has its representation
+		return rev.Representation
 	}
 	if colorableStringer, ok := rev.raw.(ColorableStringer); ok {
 		return colorableStringer.ColorableString()
-- 
2.43.0


From 10a53f614dc2ce90667a7971ef21817d61e8b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 18/36] fix: a report entry value that cannot be encoded as
 JSON does not break the whole report

---
 types/report_entry.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/types/report_entry.go b/types/report_entry.go
index a3f7ecd..998189f 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -53,7 +53,12 @@ func (rev ReportEntryValue) MarshalJSON() ([]byte, error) {
 	}
 	asJSON, err := json.Marshal(rev.raw)
 	if err != nil {
-		return nil, err
+		// the value has no JSON encoding (e.g. a func, a channel, NaN): fall back to its representation
+		// so that one such value does not make it impossible to encode the entire report
+		asJSON, err = json.Marshal(out.Representation)
+		if err != nil {
+			return nil, err
+		}
 	}
 	out.AsJSON = string(asJSON)
 
-- 
2.43.0


From ce588f82cc33a5feff5b9b2c00109ac0d2420ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 19/36] fix: the JUnit report counts an aborted spec as the
 failure it lists it as

---
 reporters/junit_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reporters/junit_report.go b/reporters/junit_report.go
index 562e0f6..32b6c5e 100644
--- a/reporters/junit_report.go
+++ b/reporters/junit_report.go
@@ -274,7 +274,7 @@ func GenerateJUnitReportWithConfig(report types.Report, dst string, config Junit
 			if config.OmitFailureMessageAttr {
 				test.Failure.Message = ""
 			}
-			suite.Errors += 1
+			suite.Failures += 1
 		case types.SpecStatePanicked:
 			test.Error = &JUnitError{
 				Message:     spec.Failure.ForwardedPanic,
-- 
2.43.0


From d84a191879c57a20272c8b2610bd7f74173b2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 20/36] fix: the TeamCity report ends a labelled suite under
 the name it was started with

---
 reporters/teamcity_report.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index e990ad8..3348532 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -36,12 +36,12 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		return err
 	}
 
-	name := report.SuiteDescription
+	suiteName := report.SuiteDescription
 	labels := report.SuiteLabels
 	if len(labels) > 0 {
-		name = name + " [" + strings.Join(labels, ", ") + "]"
+		suiteName = suiteName + " [" + strings.Join(labels, ", ") + "]"
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteStarted name='%s']\n", tcEscape(name))
+	fmt.Fprintf(f, "##teamcity[testSuiteStarted name='%s']\n", tcEscape(suiteName))
 	for _, spec := range report.SpecReports {
 		name := fmt.Sprintf("[%s]", spec.LeafNodeType)
 		if spec.FullText() != "" {
@@ -84,7 +84,7 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		fmt.Fprintf(f, "##teamcity[testStdErr name='%s' out='%s']\n", name, tcEscape(systemErrForUnstructuredReporters(spec)))
 		fmt.Fprintf(f, "##teamcity[testFinished name='%s' duration='%d']\n", name, int(spec.RunTime.Seconds()*1000.0))
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
+	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(suiteName))
 
 	return f.Close()
 }
-- 
2.43.0


From bf33b8789f4a0aaece8d9a0c7e324c90af32815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 21/36] fix: merging TeamCity reports creates the destination
 directory

---
 reporters/teamcity_report.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index 3348532..e4e76b9 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -101,5 +101,8 @@ func MergeAndCleanupTeamcityReports(sources []string, dst string) ([]string, err
 		os.Remove(source)
 		merged = append(merged, data...)
 	}
+	if err := os.MkdirAll(path.Dir(dst), 0770); err != nil {
+		return messages, err
+	}
 	return messages, os.WriteFile(dst, merged, 0666)
 }
-- 
2.43.0


From 171856dda7b22808645a9b10c9f6e7eb63a02e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 22/36] fix: a spec's IsSerial, IsInOrderedContainer and
 RunningInParallel survive encoding as JSON

---
 types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/types.go b/types/types.go
index ddcbec1..2030f86 100644
--- a/types/types.go
+++ b/types/types.go
@@ -206,10 +206,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels              []string
 		LeafNodeText                string
 		State                       SpecState
+		IsSerial                    bool `json:",omitempty"`
+		IsInOrderedContainer        bool `json:",omitempty"`
 		StartTime                   time.Time
 		EndTime                     time.Time
 		RunTime                     time.Duration
 		ParallelProcess             int
+		RunningInParallel           bool     `json:",omitempty"`
 		Failure                     *Failure `json:",omitempty"`
 		NumAttempts                 int
 		MaxFlakeAttempts            int
@@ -229,10 +232,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels:              report.LeafNodeLabels,
 		LeafNodeText:                report.LeafNodeText,
 		State:                       report.State,
+		IsSerial:                    report.IsSerial,
+		IsInOrderedContainer:        report.IsInOrderedContainer,
 		StartTime:                   report.StartTime,
 		EndTime:                     report.EndTime,
 		RunTime:                     report.RunTime,
 		ParallelProcess:             report.ParallelProcess,
+		RunningInParallel:           report.RunningInParallel,
 		Failure:                     nil,
 		ReportEntries:               nil,
 		NumAttempts:                 report.NumAttempts,
-- 
2.43.0


From 0cea6d11d1a15d709a4f34f6f0939566f26f385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 23/36] fix: GinkgoRecover does not report the panic by which
 Fail ends a goroutine as a further failure

---
 core_dsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core_dsl.go b/core_dsl.go
index d027bdf..4337a8e 100644
--- a/core_dsl.go
+++ b/core_dsl.go
@@ -469,6 +469,9 @@ func GinkgoRecover() {
 		if _, ok := e.(ignorablePanic); ok {
 			return
 		}
+		if err, ok := e.(types.GinkgoError); ok && err == types.GinkgoErrors.UncaughtGinkgoPanic(err.CodeLocation) {
+			return // raised by Fail, Skip or AbortSuite, which have recorded the outcome
+		}
 		global.Failer.Panic(types.NewCodeLocationWithStackTrace(1), e)
 	}
 }
-- 
2.43.0


From 4795f6f57e5b79fbd3c9c0ba3960d456bbfb3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 24/36] fix: remove stale report files of a suite before
 running it, so that a crash is not reported with the results of an earlier
 run

---
 ginkgo/internal/run.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 07bc295..d352939 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -55,6 +55,15 @@ func buildAndStartCommand(suite TestSuite, args []string, pipeToStdout bool) (*e
 	return cmd, buf
 }
 
+// removeStaleReports makes sure that a report left by an earlier run is not taken for that of a suite that ends without writing one
+func removeStaleReports(reporterConfig types.ReporterConfig) {
+	for _, report := range []string{reporterConfig.JSONReport, reporterConfig.JUnitReport, reporterConfig.TeamcityReport} {
+		if report != "" {
+			os.Remove(report)
+		}
+	}
+}
+
 func checkForNoTestsWarning(buf *bytes.Buffer) bool {
 	if strings.Contains(buf.String(), "warning: no tests to run") {
 		fmt.Fprintf(os.Stderr, `Found no test suites, did you forget to run "ginkgo bootstrap"?`)
@@ -113,6 +122,7 @@ func runSerial(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig t
 	if reporterConfig.TeamcityReport != "" {
 		reporterConfig.TeamcityReport = AbsPathForGeneratedAsset(reporterConfig.TeamcityReport, suite, cliConfig, 0)
 	}
+	removeStaleReports(reporterConfig)
 
 	args, err := types.GenerateGinkgoTestRunArgs(ginkgoConfig, reporterConfig, goFlagsConfig)
 	command.AbortIfError("Failed to generate test run arguments", err)
@@ -185,6 +195,7 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 	if reporterConfig.TeamcityReport != "" {
 		reporterConfig.TeamcityReport = AbsPathForGeneratedAsset(reporterConfig.TeamcityReport, suite, cliConfig, 0)
 	}
+	removeStaleReports(reporterConfig)
 
 	for proc := 1; proc <= numProcs; proc++ {
 		procGinkgoConfig := ginkgoConfig
-- 
2.43.0


From 4399a8eb233c8afcf9c01826d2086b31e0e69579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 25/36] fix: an interrupt that arrives between suites stops the
 run and is reported as such

---
 ginkgo/run/run_command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index 03875b9..679862c 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -97,6 +97,7 @@ func (r *SpecRunner) RunSpecs(args []string, additionalArgs []string) {
 	}
 
 	iteration := 0
+	interrupted := false
 OUTER_LOOP:
 	for {
 		if !r.flags.WasSet("seed") {
@@ -118,6 +119,7 @@ OUTER_LOOP:
 			suites[suiteIdx] = suite
 
 			if r.interruptHandler.Status().Interrupted() {
+				interrupted = true
 				opc.StopAndDrain()
 				break OUTER_LOOP
 			}
@@ -180,7 +182,7 @@ OUTER_LOOP:
 
 	fmt.Printf("\nGinkgo ran %d %s in %s\n", len(suites), internal.PluralizedWord("suite", "suites", len(suites)), time.Since(t))
 
-	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
+	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 && !interrupted {
 		if suites.AnyHaveProgrammaticFocus() && strings.TrimSpace(os.Getenv("GINKGO_EDITOR_INTEGRATION")) == "" {
 			fmt.Printf("Test Suite Passed\n")
 			fmt.Printf("Detected Programmatic Focus - setting exit status to %d\n", types.GINKGO_FOCUS_EXIT_CODE)
-- 
2.43.0


From 06c98e8be90b9cb6dbb232e6b41e73183d2a5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 26/36] fix: a coverage or profile file missing because its
 process died does not end the run

---
 ginkgo/internal/profiles_and_reports.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 52e92be..3cae347 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"os/exec"
@@ -149,6 +150,9 @@ func MergeAndCleanupCoverProfiles(profiles []string, destination string) error {
 	var merged []*cover.Profile
 	for _, file := range profiles {
 		parsedProfiles, err := cover.ParseProfiles(file)
+		if errors.Is(err, os.ErrNotExist) {
+			continue // a process that dies leaves no profile
+		}
 		if err != nil {
 			return err
 		}
@@ -196,6 +200,9 @@ func MergeProfiles(profilePaths []string, destination string) error {
 	profiles := []*profile.Profile{}
 	for _, profilePath := range profilePaths {
 		proFile, err := os.Open(profilePath)
+		if errors.Is(err, os.ErrNotExist) {
+			continue // a process that dies leaves no profile
+		}
 		if err != nil {
 			return fmt.Errorf("Could not open profile: %s\n%s", profilePath, err.Error())
 		}
@@ -208,6 +215,9 @@ func MergeProfiles(profilePaths []string, destination string) error {
 		os.Remove(profilePath)
 	}
 
+	if len(profiles) == 0 {
+		return nil
+	}
 	mergedProfile, err := profile.Merge(profiles)
 	if err != nil {
 		return fmt.Errorf("Could not merge profiles:\n%s", err.Error())
-- 
2.43.0


From 7b55b894c87c5f792442a79bef1f54faf9e9d23a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 27/36] fix: passing nil to a node is reported as an unknown
 decorator instead of panicking

---
 internal/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/node.go b/internal/node.go
index 8096950..cb95180 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -227,6 +227,8 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 	// now process the rest of the args
 	for _, arg := range args {
 		switch t := reflect.TypeOf(arg); {
+		case t == nil:
+			remainingArgs = append(remainingArgs, arg)
 		case t == reflect.TypeOf(float64(0)):
 			break // ignore deprecated timeouts
 		case t == reflect.TypeOf(Focus):
-- 
2.43.0


From c183ca589fcf2e242d515c7ca6756c4048d6a079 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 28/36] fix: a reporting node with a body function of the wrong
 type is reported as an error instead of panicking

---
 internal/node.go | 20 ++++++++++++++------
 types/errors.go  | 14 ++++++++++++++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index cb95180..bf0acf0 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -329,11 +329,15 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				node.Body = func(SpecContext) { body() }
 			} else if nodeType.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach) {
 				if node.ReportEachBody == nil {
-					if fn, ok := arg.(func(types.SpecReport)); ok {
+					switch fn := arg.(type) {
+					case func(types.SpecReport):
 						node.ReportEachBody = func(_ SpecContext, r types.SpecReport) { fn(r) }
-					} else {
-						node.ReportEachBody = arg.(func(SpecContext, types.SpecReport))
+					case func(SpecContext, types.SpecReport):
+						node.ReportEachBody = fn
 						node.HasContext = true
+					default:
+						appendError(types.GinkgoErrors.InvalidBodyTypeForReportNode(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -342,11 +346,15 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				}
 			} else if nodeType.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite) {
 				if node.ReportSuiteBody == nil {
-					if fn, ok := arg.(func(types.Report)); ok {
+					switch fn := arg.(type) {
+					case func(types.Report):
 						node.ReportSuiteBody = func(_ SpecContext, r types.Report) { fn(r) }
-					} else {
-						node.ReportSuiteBody = arg.(func(SpecContext, types.Report))
+					case func(SpecContext, types.Report):
+						node.ReportSuiteBody = fn
 						node.HasContext = true
+					default:
+						appendError(types.GinkgoErrors.InvalidBodyTypeForReportNode(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
diff --git a/types/errors.go b/types/errors.go
index c2796b5..c9de4c0 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -221,6 +221,20 @@ You passed {{bold}}%s{{/}} instead.`, nodeType, t),
 	}
 }
 
+func (g ginkgoErrors) InvalidBodyTypeForReportNode(t reflect.Type, cl CodeLocation, nodeType NodeType) error {
+	mustGet := "{{bold}}func(report SpecReport){{/}} or {{bold}}func(ctx SpecContext, report SpecReport){{/}}"
+	if nodeType.Is(NodeTypeReportBeforeSuite | NodeTypeReportAfterSuite) {
+		mustGet = "{{bold}}func(report Report){{/}} or {{bold}}func(ctx SpecContext, report Report){{/}}"
+	}
+	return GinkgoError{
+		Heading: "Invalid Function",
+		Message: formatter.F(`[%s] node must be passed `+mustGet+`.
+You passed {{bold}}%s{{/}} instead.`, nodeType, t),
+		CodeLocation: cl,
+		DocLink:      "node-decorators-overview",
+	}
+}
+
 func (g ginkgoErrors) InvalidBodyTypeForSynchronizedBeforeSuiteProc1(t reflect.Type, cl CodeLocation) error {
 	mustGet := "{{bold}}func() []byte{{/}}, {{bold}}func(ctx SpecContext) []byte{{/}}, or {{bold}}func(ctx context.Context) []byte{{/}}, {{bold}}func(){{/}}, {{bold}}func(ctx SpecContext){{/}}, or {{bold}}func(ctx context.Context){{/}}"
 	return GinkgoError{
-- 
2.43.0


From fe7b6a9db5208ed75c34508af8f6e94057496267 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 29/36] fix: body functions of a named type are accepted, and
 those taking a context Ginkgo cannot provide are reported, instead of
 panicking

---
 internal/node.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index bf0acf0..8e2e021 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -325,7 +325,7 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 					trackedFunctionError = true
 					break
 				}
-				body := arg.(func())
+				body := asFunc[func()](arg)
 				node.Body = func(SpecContext) { body() }
 			} else if nodeType.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach) {
 				if node.ReportEachBody == nil {
@@ -469,22 +469,34 @@ func extractBodyFunction(deprecationTracker *types.DeprecationTracker, cl types.
 	if t.NumIn() == 1 {
 		if t.In(0) == doneType {
 			deprecationTracker.TrackDeprecation(types.Deprecations.Async(), cl)
-			deprecatedAsyncBody := arg.(func(Done))
+			deprecatedAsyncBody := asFunc[func(Done)](arg)
 			return func(SpecContext) { deprecatedAsyncBody(make(Done)) }, false
-		} else if t.In(0).Implements(specContextType) {
-			return arg.(func(SpecContext)), true
-		} else if t.In(0).Implements(contextType) {
-			body := arg.(func(context.Context))
+		} else if body := asFunc[func(SpecContext)](arg); body != nil {
+			return body, true
+		} else if body := asFunc[func(context.Context)](arg); body != nil {
 			return func(c SpecContext) { body(c) }, true
 		}
 
 		return nil, false
 	}
 
-	body := arg.(func())
+	body := asFunc[func()](arg)
 	return func(SpecContext) { body() }, false
 }
 
+// asFunc returns arg as a function of type F, or nil if it is not of a type with the same signature as F
+func asFunc[F any](arg any) (fn F) {
+	if v, t := reflect.ValueOf(arg), reflect.TypeOf(fn); v.Type().ConvertibleTo(t) {
+		fn = v.Convert(t).Interface().(F)
+	}
+	return fn
+}
+
+// isContextParameter returns true if a parameter of type t can be passed a SpecContext
+func isContextParameter(t reflect.Type) bool {
+	return t.Implements(contextType) && specContextType.AssignableTo(t)
+}
+
 var byteType = reflect.TypeOf([]byte{})
 
 func extractSynchronizedBeforeSuiteProc1Body(arg any) (func(SpecContext) []byte, bool) {
@@ -495,7 +507,7 @@ func extractSynchronizedBeforeSuiteProc1Body(arg any) (func(SpecContext) []byte,
 		return nil, false
 	} else if t.NumOut() == 1 && t.Out(0) != byteType {
 		return nil, false
-	} else if t.NumIn() == 1 && !t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && !isContextParameter(t.In(0)) {
 		return nil, false
 	}
 	hasContext := t.NumIn() == 1
@@ -522,9 +534,9 @@ func extractSynchronizedBeforeSuiteAllProcsBody(arg any) (func(SpecContext, []by
 
 	if t.NumOut() > 0 || t.NumIn() > 2 {
 		return nil, false
-	} else if t.NumIn() == 2 && t.In(0).Implements(contextType) && t.In(1) == byteType {
+	} else if t.NumIn() == 2 && isContextParameter(t.In(0)) && t.In(1) == byteType {
 		hasContext, hasByte = true, true
-	} else if t.NumIn() == 1 && t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && isContextParameter(t.In(0)) {
 		hasContext = true
 	} else if t.NumIn() == 1 && t.In(0) == byteType {
 		hasByte = true
-- 
2.43.0


From dd8d859ac6ffc1975185731ff45aa97a54efa355 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 30/36] fix: DeferCleanup passes a nil argument on to the
 function

---
 internal/node.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index 8e2e021..7ea23fb 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -584,21 +584,31 @@ func NewCleanupNode(deprecationTracker *types.DeprecationTracker, fail func(stri
 		return Node{}, []error{types.GinkgoErrors.DeferCleanupInvalidFunction(cl)}
 	}
 
-	callArgs := []reflect.Value{}
-	for _, arg := range remainingArgs[1:] {
-		callArgs = append(callArgs, reflect.ValueOf(arg))
-	}
-
+	callbackArgs := remainingArgs[1:]
 	hasContext := false
 	t := callback.Type()
 	if t.NumIn() > 0 {
 		if t.In(0).Implements(specContextType) {
 			hasContext = true
-		} else if t.In(0).Implements(contextType) && (len(callArgs) == 0 || !callArgs[0].Type().Implements(contextType)) {
+		} else if t.In(0).Implements(contextType) && (len(callbackArgs) == 0 || callbackArgs[0] == nil || !reflect.TypeOf(callbackArgs[0]).Implements(contextType)) {
 			hasContext = true
 		}
 	}
 
+	callArgs := []reflect.Value{}
+	for i, arg := range callbackArgs {
+		if hasContext {
+			i += 1
+		}
+		if arg == nil && t.IsVariadic() && i >= t.NumIn()-1 {
+			callArgs = append(callArgs, reflect.Zero(t.In(t.NumIn()-1).Elem()))
+		} else if arg == nil && i < t.NumIn() {
+			callArgs = append(callArgs, reflect.Zero(t.In(i)))
+		} else {
+			callArgs = append(callArgs, reflect.ValueOf(arg))
+		}
+	}
+
 	handleFailure := func(out []reflect.Value) {
 		if len(out) == 0 {
 			return
-- 
2.43.0


From dc4260ea86405d034abfbb17bc4624afa07ed75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 31/36] fix: watch reruns a suite when a file it watches is
 deleted or replaced by an older one

---
 ginkgo/watch/package_hash.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index 0e6ae1f..9ddb5a4 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -27,20 +27,24 @@ func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 		watchRegExp: watchRegExp,
 	}
 
-	p.codeHash, _, p.testHash, _, p.Deleted = p.computeHashes()
+	p.codeHash, p.testHash, p.Deleted = p.computeHashes()
 
 	return p
 }
 
 func (p *PackageHash) CheckForChanges() bool {
-	codeHash, codeModifiedTime, testHash, testModifiedTime, deleted := p.computeHashes()
+	codeHash, testHash, deleted := p.computeHashes()
+
+	// the modification times of the files don't tell when the package changed: they aren't affected by deleting
+	// a file, and go back when a file is replaced by an older one
+	t := time.Now()
 
 	if deleted {
-		if !p.Deleted {
-			t := time.Now()
-			p.CodeModifiedTime = t
-			p.TestModifiedTime = t
+		if p.Deleted {
+			return false
 		}
+		p.CodeModifiedTime = t
+		p.TestModifiedTime = t
 		p.Deleted = true
 		return true
 	}
@@ -49,11 +53,11 @@ func (p *PackageHash) CheckForChanges() bool {
 	p.Deleted = false
 
 	if p.codeHash != codeHash {
-		p.CodeModifiedTime = codeModifiedTime
+		p.CodeModifiedTime = t
 		modified = true
 	}
 	if p.testHash != testHash {
-		p.TestModifiedTime = testModifiedTime
+		p.TestModifiedTime = t
 		modified = true
 	}
 
@@ -62,7 +66,7 @@ func (p *PackageHash) CheckForChanges() bool {
 	return modified
 }
 
-func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Time, testHash string, testModifiedTime time.Time, deleted bool) {
+func (p *PackageHash) computeHashes() (codeHash string, testHash string, deleted bool) {
 	entries, err := os.ReadDir(p.path)
 
 	if err != nil {
@@ -86,24 +90,15 @@ func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Ti
 
 		if goTestRegExp.MatchString(info.Name()) {
 			testHash += p.hashForFileInfo(info)
-			if info.ModTime().After(testModifiedTime) {
-				testModifiedTime = info.ModTime()
-			}
 			continue
 		}
 
 		if p.watchRegExp.MatchString(info.Name()) {
 			codeHash += p.hashForFileInfo(info)
-			if info.ModTime().After(codeModifiedTime) {
-				codeModifiedTime = info.ModTime()
-			}
 		}
 	}
 
 	testHash += codeHash
-	if codeModifiedTime.After(testModifiedTime) {
-		testModifiedTime = codeModifiedTime
-	}
 
 	return
 }
-- 
2.43.0


From 94ea200569e85656c04c27c610d575dd4bb135fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 32/36] fix: watch does not crash when a suite that was removed
 comes back

---
 ginkgo/watch/delta_tracker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginkgo/watch/delta_tracker.go b/ginkgo/watch/delta_tracker.go
index 26418ac..7c22529 100644
--- a/ginkgo/watch/delta_tracker.go
+++ b/ginkgo/watch/delta_tracker.go
@@ -37,13 +37,14 @@ func (d *DeltaTracker) Delta(suites internal.TestSuites) (delta Delta, errors Su
 
 	d.packageHashes.StartTrackingUsage()
 
-	for _, suite := range d.suites {
+	for path, suite := range d.suites {
 		if providedSuitePaths[suite.Suite.Path] {
 			if suite.Delta() > 0 {
 				delta.modifiedSuites = append(delta.modifiedSuites, suite)
 			}
 		} else {
 			delta.RemovedSuites = append(delta.RemovedSuites, suite)
+			delete(d.suites, path)
 		}
 	}
 
-- 
2.43.0


From ca115529817cb2f417627db9964d8207a6563fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 33/36] fix: watch keeps watching a dependency that does not
 parse at the moment

---
 ginkgo/watch/dependencies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginkgo/watch/dependencies.go b/ginkgo/watch/dependencies.go
index a34d943..ac21451 100644
--- a/ginkgo/watch/dependencies.go
+++ b/ginkgo/watch/dependencies.go
@@ -75,7 +75,7 @@ func (d Dependencies) addDepsForDep(dep string, depth int) {
 func (d Dependencies) resolveAndAdd(deps []string, depth int) {
 	for _, dep := range deps {
 		pkg, err := build.Import(dep, ".", 0)
-		if err != nil {
+		if err != nil && pkg.Dir == "" {
 			continue
 		}
 		if !pkg.Goroot && (!ginkgoAndGomegaFilter.MatchString(pkg.Dir) || ginkgoIntegrationTestFilter.MatchString(pkg.Dir)) {
-- 
2.43.0


From 6aed41ba618509368689a330f8d1919b8ce83905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 34/36] fix: outline applies the rules for nested focus that
 specs are subject to when they run

---
 ginkgo/outline/ginkgo.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/ginkgo/outline/ginkgo.go b/ginkgo/outline/ginkgo.go
index 5d8d00b..f57a205 100644
--- a/ginkgo/outline/ginkgo.go
+++ b/ginkgo/outline/ginkgo.go
@@ -81,27 +81,29 @@ func (n *ginkgoNode) PropagateInheritedProperties() {
 
 // BackpropagateUnfocus propagates the Focused property through the subtree
 // rooted at n. It applies the rule described in the Ginkgo docs:
-// > Nested programmatically focused specs follow a simple rule: if a
-// > leaf-node is marked focused, any of its ancestor nodes that are marked
-// > focus will be unfocused.
+// > Nested programmatically focused specs follow a simple rule: if a child
+// > node is marked as focused, any of its ancestor nodes that are marked as
+// > focused will be unfocused.
+// As in Ginkgo itself, focus within a pending container does not count.
 func (n *ginkgoNode) BackpropagateUnfocus() {
-	focusedSpecInSubtreeStack := []bool{}
-	n.PostOrder(func(thisNode *ginkgoNode) {
-		if thisNode.Spec {
-			focusedSpecInSubtreeStack = append(focusedSpecInSubtreeStack, thisNode.Focused)
-			return
-		}
-		focusedSpecInSubtree := false
-		for range thisNode.Nodes {
-			focusedSpecInSubtree = focusedSpecInSubtree || focusedSpecInSubtreeStack[len(focusedSpecInSubtreeStack)-1]
-			focusedSpecInSubtreeStack = focusedSpecInSubtreeStack[0 : len(focusedSpecInSubtreeStack)-1]
-		}
-		focusedSpecInSubtreeStack = append(focusedSpecInSubtreeStack, focusedSpecInSubtree)
-		if focusedSpecInSubtree {
-			thisNode.Focused = false
-		}
-	})
+	n.backpropagateUnfocus()
+}
 
+// backpropagateUnfocus reports whether n or any of its descendants is focused
+func (n *ginkgoNode) backpropagateUnfocus() bool {
+	if n.Pending {
+		return false
+	}
+	focusedInSubtree := false
+	for _, m := range n.Nodes {
+		if m.backpropagateUnfocus() {
+			focusedInSubtree = true
+		}
+	}
+	if focusedInSubtree {
+		n.Focused = false
+	}
+	return n.Focused || focusedInSubtree
 }
 
 func packageAndIdentNamesFromCallExpr(ce *ast.CallExpr) (string, string, bool) {
-- 
2.43.0


From b5ad1edb9258a69dddcc45766dc9aaa6dab81cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 35/36] fix: outline recognizes Focus, package-qualified
 decorators, all ways to import Ginkgo, and the containers and setup nodes it
 did not know

---
 ginkgo/outline/ginkgo.go  | 111 ++++++++++++++++++--------------------
 ginkgo/outline/import.go  |  50 ++++++++---------
 ginkgo/outline/outline.go |   6 +--
 3 files changed, 81 insertions(+), 86 deletions(-)

diff --git a/ginkgo/outline/ginkgo.go b/ginkgo/outline/ginkgo.go
index f57a205..1e37556 100644
--- a/ginkgo/outline/ginkgo.go
+++ b/ginkgo/outline/ginkgo.go
@@ -106,9 +106,13 @@ func (n *ginkgoNode) backpropagateUnfocus() bool {
 	return n.Focused || focusedInSubtree
 }
 
-func packageAndIdentNamesFromCallExpr(ce *ast.CallExpr) (string, string, bool) {
-	switch ex := ce.Fun.(type) {
+func packageAndIdentNames(expr ast.Expr) (string, string, bool) {
+	switch ex := expr.(type) {
 	case *ast.Ident:
+		// An identifier from a dot-imported package isn't declared in the file, so Obj must be nil
+		if ex.Obj != nil {
+			return "", "", false
+		}
 		return "", ex.Name, true
 	case *ast.SelectorExpr:
 		pkgID, ok := ex.X.(*ast.Ident)
@@ -136,9 +140,9 @@ func absoluteOffsetsForNode(fset *token.FileSet, n ast.Node) (start, end int) {
 
 // ginkgoNodeFromCallExpr derives an outline entry from a go AST subtree
 // corresponding to a Ginkgo container or spec.
-func ginkgoNodeFromCallExpr(fset *token.FileSet, ce *ast.CallExpr, ginkgoPackageName *string) (*ginkgoNode, bool) {
-	packageName, identName, ok := packageAndIdentNamesFromCallExpr(ce)
-	if !ok {
+func ginkgoNodeFromCallExpr(fset *token.FileSet, ce *ast.CallExpr, ginkgoPackageNames map[string]bool) (*ginkgoNode, bool) {
+	packageName, identName, ok := packageAndIdentNames(ce.Fun)
+	if !ok || !ginkgoPackageNames[packageName] {
 		return nil, false
 	}
 
@@ -150,47 +154,51 @@ func ginkgoNodeFromCallExpr(fset *token.FileSet, ce *ast.CallExpr, ginkgoPackage
 	case "It", "Specify", "Entry":
 		n.Spec = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		n.Pending = pendingFromCallExpr(ce)
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageNames)
+		n.Pending = hasDecorator(ce, "Pending", ginkgoPackageNames)
+		n.Focused = hasDecorator(ce, "Focus", ginkgoPackageNames)
+		return &n, true
 	case "FIt", "FSpecify", "FEntry":
 		n.Spec = true
 		n.Focused = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageNames)
+		return &n, true
 	case "PIt", "PSpecify", "XIt", "XSpecify", "PEntry", "XEntry":
 		n.Spec = true
 		n.Pending = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "Context", "Describe", "When", "DescribeTable":
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageNames)
+		return &n, true
+	case "Context", "Describe", "When", "DescribeTable", "DescribeTableSubtree":
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		n.Pending = pendingFromCallExpr(ce)
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "FContext", "FDescribe", "FWhen", "FDescribeTable":
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageNames)
+		n.Pending = hasDecorator(ce, "Pending", ginkgoPackageNames)
+		n.Focused = hasDecorator(ce, "Focus", ginkgoPackageNames)
+		return &n, true
+	case "FContext", "FDescribe", "FWhen", "FDescribeTable", "FDescribeTableSubtree":
 		n.Focused = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable":
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageNames)
+		return &n, true
+	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable", "PDescribeTableSubtree", "XDescribeTableSubtree":
 		n.Pending = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		n.Labels = labelFromCallExpr(ce)
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		n.Labels = labelFromCallExpr(ce, ginkgoPackageNames)
+		return &n, true
 	case "By":
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		return &n, true
 	case "AfterEach", "BeforeEach":
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		return &n, true
+	case "AfterAll", "BeforeAll":
+		return &n, true
 	case "JustAfterEach", "JustBeforeEach":
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		return &n, true
 	case "AfterSuite", "BeforeSuite":
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		return &n, true
 	case "SynchronizedAfterSuite", "SynchronizedBeforeSuite":
-		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
+		return &n, true
 	default:
 		return nil, false
 	}
@@ -230,7 +238,7 @@ func textFromCallExpr(ce *ast.CallExpr) (string, bool) {
 	}
 }
 
-func labelFromCallExpr(ce *ast.CallExpr) []string {
+func labelFromCallExpr(ce *ast.CallExpr, ginkgoPackageNames map[string]bool) []string {
 
 	labels := []string{}
 	if len(ce.Args) < 2 {
@@ -238,17 +246,8 @@ func labelFromCallExpr(ce *ast.CallExpr) []string {
 	}
 
 	for _, arg := range ce.Args[1:] {
-		switch expr := arg.(type) {
-		case *ast.CallExpr:
-			id, ok := expr.Fun.(*ast.Ident)
-			if !ok {
-				// to skip over cases where the expr.Fun. is actually *ast.SelectorExpr
-				continue
-			}
-			if id.Name == "Label" {
-				ls := extractLabels(expr)
-				labels = append(labels, ls...)
-			}
+		if expr, ok := arg.(*ast.CallExpr); ok && isGinkgoIdentifier(expr.Fun, "Label", ginkgoPackageNames) {
+			labels = append(labels, extractLabels(expr)...)
 		}
 	}
 	return labels
@@ -275,29 +274,25 @@ func extractLabels(expr *ast.CallExpr) []string {
 	return out
 }
 
-func pendingFromCallExpr(ce *ast.CallExpr) bool {
-
-	pending := false
+// hasDecorator reports whether a spec or container is decorated with the named decorator
+func hasDecorator(ce *ast.CallExpr, name string, ginkgoPackageNames map[string]bool) bool {
 	if len(ce.Args) < 2 {
-		return pending
+		return false
 	}
 
 	for _, arg := range ce.Args[1:] {
-		switch expr := arg.(type) {
-		case *ast.CallExpr:
-			id, ok := expr.Fun.(*ast.Ident)
-			if !ok {
-				// to skip over cases where the expr.Fun. is actually *ast.SelectorExpr
-				continue
-			}
-			if id.Name == "Pending" {
-				pending = true
-			}
-		case *ast.Ident:
-			if expr.Name == "Pending" {
-				pending = true
-			}
+		if call, ok := arg.(*ast.CallExpr); ok {
+			arg = call.Fun
+		}
+		if isGinkgoIdentifier(arg, name, ginkgoPackageNames) {
+			return true
 		}
 	}
-	return pending
+	return false
+}
+
+// isGinkgoIdentifier reports whether expr refers to the identifier of the given name in one of Ginkgo's packages.
+func isGinkgoIdentifier(expr ast.Expr, name string, ginkgoPackageNames map[string]bool) bool {
+	packageName, identName, ok := packageAndIdentNames(expr)
+	return ok && identName == name && ginkgoPackageNames[packageName]
 }
diff --git a/ginkgo/outline/import.go b/ginkgo/outline/import.go
index f0a6b5d..ef5f58c 100644
--- a/ginkgo/outline/import.go
+++ b/ginkgo/outline/import.go
@@ -14,37 +14,37 @@ import (
 	"strings"
 )
 
-// packageNameForImport returns the package name for the package. If the package
-// is not imported, it returns nil. "Package name" refers to `pkgname` in the
-// call expression `pkgname.ExportedIdentifier`. Examples:
-// (import path not found) -> nil
+// packageNamesForImport returns the names under which the package, and the
+// packages with parts of its DSL, are imported. "Package name" refers to
+// `pkgname` in the call expression `pkgname.ExportedIdentifier`. Examples:
+// (import path not found) -> (none)
 // "import example.com/pkg/foo" -> "foo"
 // "import fooalias example.com/pkg/foo" -> "fooalias"
 // "import . example.com/pkg/foo" -> ""
-func packageNameForImport(f *ast.File, path string) *string {
-	spec := importSpec(f, path)
-	if spec == nil {
-		return nil
-	}
-	name := spec.Name.String()
-	if name == "<nil>" {
-		name = "ginkgo"
-	}
-	if name == "." {
-		name = ""
-	}
-	return &name
-}
-
-// importSpec returns the import spec if f imports path,
-// or nil otherwise.
-func importSpec(f *ast.File, path string) *ast.ImportSpec {
+// "import example.com/pkg/foo/dsl/core" -> "core"
+func packageNamesForImport(f *ast.File, path string) map[string]bool {
+	names := map[string]bool{}
 	for _, s := range f.Imports {
-		if strings.HasPrefix(importPath(s), path) {
-			return s
+		name := ""
+		switch p := importPath(s); {
+		case p == path:
+			name = "ginkgo"
+		case strings.HasPrefix(p, path+"/dsl/"):
+			name = strings.TrimPrefix(p, path+"/dsl/")
+		default:
+			continue
+		}
+		if s.Name != nil {
+			name = s.Name.Name
+		}
+		if name == "." {
+			name = ""
+		}
+		if name != "_" {
+			names[name] = true
 		}
 	}
-	return nil
+	return names
 }
 
 // importPath returns the unquoted import path of s,
diff --git a/ginkgo/outline/outline.go b/ginkgo/outline/outline.go
index e99d557..d913741 100644
--- a/ginkgo/outline/outline.go
+++ b/ginkgo/outline/outline.go
@@ -20,8 +20,8 @@ const (
 
 // FromASTFile returns an outline for a Ginkgo test source file
 func FromASTFile(fset *token.FileSet, src *ast.File) (*outline, error) {
-	ginkgoPackageName := packageNameForImport(src, ginkgoImportPath)
-	if ginkgoPackageName == nil {
+	ginkgoPackageNames := packageNamesForImport(src, ginkgoImportPath)
+	if len(ginkgoPackageNames) == 0 {
 		return nil, fmt.Errorf("file does not import %q", ginkgoImportPath)
 	}
 
@@ -37,7 +37,7 @@ func FromASTFile(fset *token.FileSet, src *ast.File) (*outline, error) {
 				// ast.CallExpr, this should never happen
 				panic(fmt.Errorf("node starting at %d, ending at %d is not an *ast.CallExpr", node.Pos(), node.End()))
 			}
-			gn, ok := ginkgoNodeFromCallExpr(fset, ce, ginkgoPackageName)
+			gn, ok := ginkgoNodeFromCallExpr(fset, ce, ginkgoPackageNames)
 			if !ok {
 				// Node is not a Ginkgo spec or container, continue
 				return true
-- 
2.43.0


From ac30ecdb67c35b66030e30ee8c55da403162fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 36/36] fix: unfocus handles package-qualified names and all
 forms of Focus decorators, and leaves other identifiers alone

---
 ginkgo/unfocus/unfocus_command.go | 126 +++++++++++++++++++++++++++---
 1 file changed, 114 insertions(+), 12 deletions(-)

diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index 7dd2943..2a3e27a 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -9,6 +9,9 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"regexp"
+	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -90,7 +93,7 @@ func unfocusFile(path string) {
 		return
 	}
 
-	eliminations := scanForFocus(ast)
+	eliminations := scanForFocus(ast, data)
 	if len(eliminations) == 0 {
 		return
 	}
@@ -154,31 +157,130 @@ func updateFile(path string, data []byte, eliminations [][]int64) error {
 	return nil
 }
 
-func scanForFocus(file *ast.File) (eliminations [][]int64) {
-	ast.Inspect(file, func(n ast.Node) bool {
-		if c, ok := n.(*ast.CallExpr); ok {
-			if i, ok := c.Fun.(*ast.Ident); ok {
-				if isFocus(i.Name) {
-					eliminations = append(eliminations, []int64{int64(i.Pos()), 1})
-				}
+func scanForFocus(file *ast.File, data []byte) (eliminations [][]int64) {
+	ginkgoPackageNames := ginkgoPackageNames(file)
+	eliminate := func(start, end token.Pos) {
+		if start < end {
+			eliminations = append(eliminations, []int64{int64(start), int64(end - start)})
+		}
+	}
+
+	// identifier returns the identifier that expr refers to, if it may be one of Ginkgo's
+	identifier := func(expr ast.Expr) *ast.Ident {
+		switch x := expr.(type) {
+		case *ast.Ident:
+			if x.Obj == nil { // otherwise it is declared in this file
+				return x
+			}
+		case *ast.SelectorExpr:
+			if pkg, ok := x.X.(*ast.Ident); ok && pkg.Obj == nil && ginkgoPackageNames[pkg.Name] {
+				return x.Sel
 			}
 		}
+		return nil
+	}
 
-		if i, ok := n.(*ast.Ident); ok {
-			if i.Name == "Focus" {
-				eliminations = append(eliminations, []int64{int64(i.Pos()), 6})
+	// eliminateFocus eliminates Focus decorators from a list, each with the comma that goes with it
+	eliminateFocus := func(list []ast.Expr, end token.Pos) {
+		previousWasEliminated := false
+		for i, expr := range list {
+			ident := identifier(expr)
+			if ident == nil || ident.Name != "Focus" {
+				previousWasEliminated = false
+				continue
+			}
+			next := end
+			if i+1 < len(list) {
+				next = list[i+1].Pos()
 			}
+			if comma, ok := commaBetween(data, expr.End(), next); ok {
+				after := comma + 1
+				if i+1 < len(list) {
+					for after < next && (data[after-1] == ' ' || data[after-1] == '\t') {
+						after++
+					}
+				}
+				if comma == expr.End() {
+					eliminate(expr.Pos(), after)
+				} else {
+					eliminate(expr.Pos(), expr.End())
+					eliminate(comma, after)
+				}
+			} else {
+				start := expr.Pos()
+				if i > 0 && !previousWasEliminated {
+					gap := data[list[i-1].End()-1 : start-1]
+					if strings.TrimSpace(string(gap)) == "," {
+						start -= token.Pos(len(gap) - bytes.IndexByte(gap, ','))
+					}
+				}
+				eliminate(start, expr.End())
+			}
+			previousWasEliminated = true
 		}
+	}
 
+	ast.Inspect(file, func(n ast.Node) bool {
+		switch x := n.(type) {
+		case *ast.CallExpr:
+			if i := identifier(x.Fun); i != nil && isFocus(i.Name) {
+				eliminate(i.Pos(), i.Pos()+1)
+			}
+			eliminateFocus(x.Args, x.Rparen)
+		case *ast.CompositeLit:
+			eliminateFocus(x.Elts, x.Rbrace)
+		}
 		return true
 	})
 
+	sort.Slice(eliminations, func(i, j int) bool { return eliminations[i][0] < eliminations[j][0] })
+
 	return eliminations
 }
 
+// ginkgoPackageNames returns the names by which the file refers to Ginkgo's packages
+func ginkgoPackageNames(file *ast.File) map[string]bool {
+	names := map[string]bool{}
+	for _, spec := range file.Imports {
+		path, err := strconv.Unquote(spec.Path.Value)
+		if err != nil || !ginkgoPackage.MatchString(path) {
+			continue
+		}
+		name := "ginkgo"
+		if i := strings.Index(path, "/dsl/"); i >= 0 {
+			name = path[i+len("/dsl/"):]
+		}
+		if spec.Name != nil {
+			name = spec.Name.Name
+		}
+		names[name] = true
+	}
+	return names
+}
+
+// commaBetween returns the position of the comma between two positions that are otherwise separated by space and
+// comments only
+func commaBetween(data []byte, from token.Pos, to token.Pos) (token.Pos, bool) {
+	for from < to {
+		rest := data[from-1:]
+		switch {
+		case rest[0] == ',':
+			return from, true
+		case bytes.HasPrefix(rest, []byte("//")):
+			from += token.Pos(bytes.IndexByte(rest, '\n'))
+		case bytes.HasPrefix(rest, []byte("/*")):
+			from += token.Pos(bytes.Index(rest, []byte("*/")) + 1)
+		}
+		from++
+	}
+	return token.NoPos, false
+}
+
+var ginkgoPackage = regexp.MustCompile(`^github\.com/onsi/ginkgo(/v2)?(/dsl/(core|decorators|table))?$`)
+
 func isFocus(name string) bool {
 	switch name {
-	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FEntry", "FSpecify", "FWhen":
+	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FDescribeTableSubtree", "FEntry", "FSpecify", "FWhen":
 		return true
 	default:
 		return false
-- 
2.43.0

