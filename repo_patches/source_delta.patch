From ca2d64ed69c9aae1dd9868d30d10d41cdbe89ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 01/28] fix: a failing teardown or cleanup node fails a spec
 that was skipped

---
 internal/group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/group.go b/internal/group.go
index 02c9fe4..7c98964 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -285,7 +285,7 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			afterNodeWasRun[node.ID] = true
 			state, failure := g.suite.runNode(node, deadline, spec.Nodes.BestTextFor(node))
 			g.suite.currentSpecReport.RunTime = time.Since(g.suite.currentSpecReport.StartTime)
-			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted {
+			if g.suite.currentSpecReport.State == types.SpecStatePassed || state == types.SpecStateAborted || (g.suite.currentSpecReport.State == types.SpecStateSkipped && state.Is(types.SpecStateFailureStates)) {
 				g.suite.currentSpecReport.State = state
 				g.suite.currentSpecReport.Failure = failure
 			} else if state.Is(types.SpecStateFailureStates) {
-- 
2.43.0


From fdeee5151e3eabe791500279268bb61d268048f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 02/28] fix: a failing first-process part fails a
 SynchronizedAfterSuite whose first part was skipped

---
 internal/suite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index 3edf507..7ba7665 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -691,7 +691,7 @@ func (suite *Suite) runSuiteNode(node Node) {
 				node.Body = node.SynchronizedAfterSuiteProc1Body
 				node.HasContext = node.SynchronizedAfterSuiteProc1BodyHasContext
 				state, failure := suite.runNode(node, time.Time{}, "")
-				if suite.currentSpecReport.State.Is(types.SpecStatePassed) {
+				if suite.currentSpecReport.State.Is(types.SpecStatePassed) || (suite.currentSpecReport.State.Is(types.SpecStateSkipped) && state.Is(types.SpecStateFailureStates)) {
 					suite.currentSpecReport.State, suite.currentSpecReport.Failure = state, failure
 				}
 			}
-- 
2.43.0


From e11610bba42643e8ce6b3e26d00bd1ba57df818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 03/28] fix: a spec that must pass repeatedly is not stopped by
 an inherited FlakeAttempts

---
 internal/group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/group.go b/internal/group.go
index 7c98964..16a4490 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -324,8 +324,10 @@ func (g *group) run(specs Specs) {
 			if g.suite.config.MustPassRepeatedly > 0 {
 				maxAttempts = g.suite.config.MustPassRepeatedly
 				g.suite.currentSpecReport.MaxMustPassRepeatedly = maxAttempts
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0 // MustPassRepeatedly overrides FlakeAttempts
 			} else if g.suite.currentSpecReport.MaxMustPassRepeatedly > 0 {
 				maxAttempts = max(1, spec.MustPassRepeatedly())
+				g.suite.currentSpecReport.MaxFlakeAttempts = 0 // MustPassRepeatedly overrides FlakeAttempts
 			} else if g.suite.config.FlakeAttempts > 0 {
 				maxAttempts = g.suite.config.FlakeAttempts
 				g.suite.currentSpecReport.MaxFlakeAttempts = maxAttempts
-- 
2.43.0


From 3fa34af90263110e14c403f4c663ec956a3167cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 04/28] fix: pending cleanup nodes are read and changed under
 the suite's lock

---
 internal/group.go |  4 ++--
 internal/suite.go | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 16a4490..08acaa4 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -218,8 +218,8 @@ func (g *group) attemptSpec(isFinalAttempt bool, spec Spec) bool {
 			nodes = nodes.WithinNestingLevel(terminatingNode.NestingLevel)
 		}
 		if includeDeferCleanups {
-			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterEach).Reverse()...)
-			nodes = append(nodes, g.suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterAll).Reverse()...)
+			nodes = append(nodes, g.suite.pendingCleanupNodes(types.NodeTypeCleanupAfterEach).Reverse()...)
+			nodes = append(nodes, g.suite.pendingCleanupNodes(types.NodeTypeCleanupAfterAll).Reverse()...)
 		}
 		nodes = nodes.Filter(func(node Node) bool {
 			if afterNodeWasRun[node.ID] {
diff --git a/internal/suite.go b/internal/suite.go
index 7ba7665..03fa9f0 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -240,6 +240,9 @@ func (suite *Suite) pushSuiteNode(node Node) error {
 }
 
 func (suite *Suite) pushCleanupNode(node Node) error {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+
 	if suite.phase != PhaseRun || suite.currentNode.IsZero() {
 		return types.GinkgoErrors.PushingCleanupNodeDuringTreeConstruction(node.CodeLocation)
 	}
@@ -259,13 +262,17 @@ func (suite *Suite) pushCleanupNode(node Node) error {
 
 	node.NodeIDWhereCleanupWasGenerated = suite.currentNode.ID
 	node.NestingLevel = suite.currentNode.NestingLevel
-	suite.selectiveLock.Lock()
 	suite.cleanupNodes = append(suite.cleanupNodes, node)
-	suite.selectiveLock.Unlock()
 
 	return nil
 }
 
+func (suite *Suite) pendingCleanupNodes(nodeType types.NodeType) Nodes {
+	suite.selectiveLock.Lock()
+	defer suite.selectiveLock.Unlock()
+	return suite.cleanupNodes.WithType(nodeType)
+}
+
 func (suite *Suite) generateTimelineLocation() types.TimelineLocation {
 	suite.selectiveLock.Lock()
 	defer suite.selectiveLock.Unlock()
@@ -564,7 +571,7 @@ func (suite *Suite) runAfterSuiteCleanup(numSpecsThatWillBeRun int) {
 		suite.processCurrentSpecReport()
 	}
 
-	afterSuiteCleanup := suite.cleanupNodes.WithType(types.NodeTypeCleanupAfterSuite).Reverse()
+	afterSuiteCleanup := suite.pendingCleanupNodes(types.NodeTypeCleanupAfterSuite).Reverse()
 	if len(afterSuiteCleanup) > 0 {
 		for _, cleanupNode := range afterSuiteCleanup {
 			suite.selectiveLock.Lock()
@@ -778,7 +785,9 @@ func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 
 func (suite *Suite) runNode(node Node, specDeadline time.Time, text string) (types.SpecState, types.Failure) {
 	if node.NodeType.Is(types.NodeTypeCleanupAfterEach | types.NodeTypeCleanupAfterAll | types.NodeTypeCleanupAfterSuite) {
+		suite.selectiveLock.Lock()
 		suite.cleanupNodes = suite.cleanupNodes.WithoutNode(node)
+		suite.selectiveLock.Unlock()
 	}
 
 	interruptStatus := suite.interruptHandler.Status()
-- 
2.43.0


From 55d6442579b82cb3c9afcd16a4208ef19cd8cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 05/28] fix: emitting output over HTTP returns the error when
 the coordinator cannot be reached

httpClient.Write dereferenced the nil response and panicked.
---
 internal/parallel_support/http_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/parallel_support/http_client.go b/internal/parallel_support/http_client.go
index 4aa10ae..d66dcad 100644
--- a/internal/parallel_support/http_client.go
+++ b/internal/parallel_support/http_client.go
@@ -158,9 +158,12 @@ func (client *httpClient) ShouldAbort() bool {
 
 func (client *httpClient) Write(p []byte) (int, error) {
 	resp, err := http.Post(client.serverHost+"/emit-output", "text/plain;charset=UTF-8 ", bytes.NewReader(p))
+	if err != nil {
+		return 0, err
+	}
 	resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return 0, fmt.Errorf("failed to emit output")
 	}
-	return len(p), err
+	return len(p), nil
 }
-- 
2.43.0


From 43851923cc3416bc67fdc7ee83ef2b629e05b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 06/28] fix: ginkgo run exits non-zero when it is interrupted
 before every suite has run

An interrupt between two suites left the remaining suites unrun, and the
command printed "Test Suite Passed" and exited 0.
---
 ginkgo/run/run_command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index 03875b9..a239400 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -97,6 +97,7 @@ func (r *SpecRunner) RunSpecs(args []string, additionalArgs []string) {
 	}
 
 	iteration := 0
+	interrupted := false
 OUTER_LOOP:
 	for {
 		if !r.flags.WasSet("seed") {
@@ -119,6 +120,7 @@ OUTER_LOOP:
 
 			if r.interruptHandler.Status().Interrupted() {
 				opc.StopAndDrain()
+				interrupted = true
 				break OUTER_LOOP
 			}
 
@@ -180,7 +182,7 @@ OUTER_LOOP:
 
 	fmt.Printf("\nGinkgo ran %d %s in %s\n", len(suites), internal.PluralizedWord("suite", "suites", len(suites)), time.Since(t))
 
-	if suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
+	if !interrupted && suites.CountWithState(internal.TestSuiteStateFailureStates...) == 0 {
 		if suites.AnyHaveProgrammaticFocus() && strings.TrimSpace(os.Getenv("GINKGO_EDITOR_INTEGRATION")) == "" {
 			fmt.Printf("Test Suite Passed\n")
 			fmt.Printf("Detected Programmatic Focus - setting exit status to %d\n", types.GINKGO_FOCUS_EXIT_CODE)
-- 
2.43.0


From c62a9a3dcfc3e2d70501d52e1c83f11d1b8738b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 07/28] fix: a parallel process killed by a signal no longer
 counts as alive

ProcessState.Exited() is false for a process that was terminated by a
signal, so the other processes waited forever for it to finish.
---
 ginkgo/internal/run.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ginkgo/internal/run.go b/ginkgo/internal/run.go
index 41052ea..2bd449c 100644
--- a/ginkgo/internal/run.go
+++ b/ginkgo/internal/run.go
@@ -219,10 +219,19 @@ func runParallel(suite TestSuite, ginkgoConfig types.SuiteConfig, reporterConfig
 
 		cmd, buf := buildAndStartCommand(suite, args, false)
 		procOutput[proc-1] = buf
-		server.RegisterAlive(proc, func() bool { return cmd.ProcessState == nil || !cmd.ProcessState.Exited() })
+		exited := make(chan struct{})
+		server.RegisterAlive(proc, func() bool {
+			select {
+			case <-exited:
+				return false
+			default:
+				return true
+			}
+		})
 
 		go func() {
 			cmd.Wait()
+			close(exited)
 			exitStatus := cmd.ProcessState.Sys().(syscall.WaitStatus).ExitStatus()
 			procResults <- procResult{
 				passed:               (exitStatus == 0) || (exitStatus == types.GINKGO_FOCUS_EXIT_CODE),
-- 
2.43.0


From 62f43a8f2102045375694e8558e31ba302bddacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 08/28] fix: a JSON-encoded spec record keeps IsSerial,
 IsInOrderedContainer and RunningInParallel

The three fields were dropped from JSON reports and from records sent over
the HTTP transport.
---
 types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/types.go b/types/types.go
index ddcbec1..2030f86 100644
--- a/types/types.go
+++ b/types/types.go
@@ -206,10 +206,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels              []string
 		LeafNodeText                string
 		State                       SpecState
+		IsSerial                    bool `json:",omitempty"`
+		IsInOrderedContainer        bool `json:",omitempty"`
 		StartTime                   time.Time
 		EndTime                     time.Time
 		RunTime                     time.Duration
 		ParallelProcess             int
+		RunningInParallel           bool     `json:",omitempty"`
 		Failure                     *Failure `json:",omitempty"`
 		NumAttempts                 int
 		MaxFlakeAttempts            int
@@ -229,10 +232,13 @@ func (report SpecReport) MarshalJSON() ([]byte, error) {
 		LeafNodeLabels:              report.LeafNodeLabels,
 		LeafNodeText:                report.LeafNodeText,
 		State:                       report.State,
+		IsSerial:                    report.IsSerial,
+		IsInOrderedContainer:        report.IsInOrderedContainer,
 		StartTime:                   report.StartTime,
 		EndTime:                     report.EndTime,
 		RunTime:                     report.RunTime,
 		ParallelProcess:             report.ParallelProcess,
+		RunningInParallel:           report.RunningInParallel,
 		Failure:                     nil,
 		ReportEntries:               nil,
 		NumAttempts:                 report.NumAttempts,
-- 
2.43.0


From 599a580c9ecedee23b674463f125fdc6d11c5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 09/28] fix: output interception stops when the aggregated
 report is not available

runReportSuiteNode returned without stopping the interceptor it had started,
so everything written afterwards (the report of that very failure included)
was swallowed.
---
 internal/suite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/suite.go b/internal/suite.go
index 03fa9f0..a08064e 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -769,6 +769,9 @@ func (suite *Suite) runReportSuiteNode(node Node, report types.Report) {
 		if err != nil {
 			suite.currentSpecReport.State, suite.currentSpecReport.Failure = types.SpecStateFailed, suite.failureForLeafNodeWithMessage(node, err.Error())
 			suite.reporter.EmitFailure(suite.currentSpecReport.State, suite.currentSpecReport.Failure)
+			suite.currentSpecReport.EndTime = time.Now()
+			suite.currentSpecReport.RunTime = suite.currentSpecReport.EndTime.Sub(suite.currentSpecReport.StartTime)
+			suite.currentSpecReport.CapturedStdOutErr = suite.outputInterceptor.StopInterceptingAndReturnOutput()
 			return
 		}
 		report = report.Add(aggregatedReport)
-- 
2.43.0


From f75808fa9841649c376c5d5c92fd3f0f96d21ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 10/28] fix: serial specs do not start when waiting for the
 other processes fails

---
 internal/suite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index a08064e..bca4b09 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -483,7 +483,11 @@ func (suite *Suite) runSpecs(description string, suiteLabels Labels, suitePath s
 			if groupedSpecIdx >= len(groupedSpecIndices) {
 				if suite.config.ParallelProcess == 1 && len(serialGroupedSpecIndices) > 0 {
 					groupedSpecIndices, serialGroupedSpecIndices, nextIndex = serialGroupedSpecIndices, GroupedSpecIndices{}, MakeIncrementingIndexCounter()
-					suite.client.BlockUntilNonprimaryProcsHaveFinished()
+					if err := suite.client.BlockUntilNonprimaryProcsHaveFinished(); err != nil {
+						suite.report.SpecialSuiteFailureReasons = append(suite.report.SpecialSuiteFailureReasons, fmt.Sprintf("Failed to wait for the other processes before running serial specs:\n%s", err.Error()))
+						suite.report.SuiteSucceeded = false
+						break
+					}
 					continue
 				}
 				break
-- 
2.43.0


From 2dae8c822d13412492a25e692455fb0b577e66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 11/28] fix: unfocus and outline recognise DescribeTableSubtree
 and its variants

---
 ginkgo/outline/ginkgo.go          | 6 +++---
 ginkgo/unfocus/unfocus_command.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ginkgo/outline/ginkgo.go b/ginkgo/outline/ginkgo.go
index 5d8d00b..c380bbf 100644
--- a/ginkgo/outline/ginkgo.go
+++ b/ginkgo/outline/ginkgo.go
@@ -163,17 +163,17 @@ func ginkgoNodeFromCallExpr(fset *token.FileSet, ce *ast.CallExpr, ginkgoPackage
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
 		n.Labels = labelFromCallExpr(ce)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "Context", "Describe", "When", "DescribeTable":
+	case "Context", "Describe", "When", "DescribeTable", "DescribeTableSubtree":
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
 		n.Labels = labelFromCallExpr(ce)
 		n.Pending = pendingFromCallExpr(ce)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "FContext", "FDescribe", "FWhen", "FDescribeTable":
+	case "FContext", "FDescribe", "FWhen", "FDescribeTable", "FDescribeTableSubtree":
 		n.Focused = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
 		n.Labels = labelFromCallExpr(ce)
 		return &n, ginkgoPackageName != nil && *ginkgoPackageName == packageName
-	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable":
+	case "PContext", "PDescribe", "PWhen", "XContext", "XDescribe", "XWhen", "PDescribeTable", "XDescribeTable", "PDescribeTableSubtree", "XDescribeTableSubtree":
 		n.Pending = true
 		n.Text = textOrAltFromCallExpr(ce, undefinedTextAlt)
 		n.Labels = labelFromCallExpr(ce)
diff --git a/ginkgo/unfocus/unfocus_command.go b/ginkgo/unfocus/unfocus_command.go
index 7dd2943..ade4097 100644
--- a/ginkgo/unfocus/unfocus_command.go
+++ b/ginkgo/unfocus/unfocus_command.go
@@ -178,7 +178,7 @@ func scanForFocus(file *ast.File) (eliminations [][]int64) {
 
 func isFocus(name string) bool {
 	switch name {
-	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FEntry", "FSpecify", "FWhen":
+	case "FDescribe", "FContext", "FIt", "FDescribeTable", "FDescribeTableSubtree", "FEntry", "FSpecify", "FWhen":
 		return true
 	default:
 		return false
-- 
2.43.0


From ab1b4c0bdfff44269c8fac23315d676977d5b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 12/28] fix: a JSON, JUnit or TeamCity report that cannot be
 written completely is an error

The results of writing, encoding and closing the files were ignored.
---
 reporters/json_report.go     |  8 ++++----
 reporters/junit_report.go    | 20 ++++++++++++++++----
 reporters/teamcity_report.go | 33 ++++++++++++++++++++-------------
 3 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/reporters/json_report.go b/reporters/json_report.go
index 5d3e8db..8d314ac 100644
--- a/reporters/json_report.go
+++ b/reporters/json_report.go
@@ -18,16 +18,16 @@ func GenerateJSONReport(report types.Report, destination string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "  ")
 	err = enc.Encode([]types.Report{
 		report,
 	})
 	if err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	return f.Close()
 }
 
 // MergeJSONReports produces a single JSON-formatted report at the passed in destination by merging the JSON-formatted reports provided in sources
@@ -58,12 +58,12 @@ func MergeAndCleanupJSONReports(sources []string, destination string) ([]string,
 	if err != nil {
 		return messages, err
 	}
-	defer f.Close()
 	enc := json.NewEncoder(f)
 	enc.SetIndent("", "  ")
 	err = enc.Encode(allReports)
 	if err != nil {
+		f.Close()
 		return messages, err
 	}
-	return messages, nil
+	return messages, f.Close()
 }
diff --git a/reporters/junit_report.go b/reporters/junit_report.go
index 562e0f6..1ec4cdd 100644
--- a/reporters/junit_report.go
+++ b/reporters/junit_report.go
@@ -306,10 +306,16 @@ func GenerateJUnitReportWithConfig(report types.Report, dst string, config Junit
 	if err != nil {
 		return err
 	}
-	f.WriteString(xml.Header)
+	if _, err := f.WriteString(xml.Header); err != nil {
+		f.Close()
+		return err
+	}
 	encoder := xml.NewEncoder(f)
 	encoder.Indent("  ", "    ")
-	encoder.Encode(junitReport)
+	if err := encoder.Encode(junitReport); err != nil {
+		f.Close()
+		return err
+	}
 
 	return f.Close()
 }
@@ -347,10 +353,16 @@ func MergeAndCleanupJUnitReports(sources []string, dst string) ([]string, error)
 	if err != nil {
 		return messages, err
 	}
-	f.WriteString(xml.Header)
+	if _, err := f.WriteString(xml.Header); err != nil {
+		f.Close()
+		return messages, err
+	}
 	encoder := xml.NewEncoder(f)
 	encoder.Indent("  ", "    ")
-	encoder.Encode(mergedReport)
+	if err := encoder.Encode(mergedReport); err != nil {
+		f.Close()
+		return messages, err
+	}
 
 	return messages, f.Close()
 }
diff --git a/reporters/teamcity_report.go b/reporters/teamcity_report.go
index e990ad8..2de668a 100644
--- a/reporters/teamcity_report.go
+++ b/reporters/teamcity_report.go
@@ -9,6 +9,7 @@ http://confluence.jetbrains.com/display/TCD7/Build+Script+Interaction+with+TeamC
 package reporters
 
 import (
+	"bufio"
 	"fmt"
 	"os"
 	"path"
@@ -36,12 +37,14 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		return err
 	}
 
+	out := bufio.NewWriter(f)
+
 	name := report.SuiteDescription
 	labels := report.SuiteLabels
 	if len(labels) > 0 {
 		name = name + " [" + strings.Join(labels, ", ") + "]"
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteStarted name='%s']\n", tcEscape(name))
+	fmt.Fprintf(out, "##teamcity[testSuiteStarted name='%s']\n", tcEscape(name))
 	for _, spec := range report.SpecReports {
 		name := fmt.Sprintf("[%s]", spec.LeafNodeType)
 		if spec.FullText() != "" {
@@ -53,39 +56,43 @@ func GenerateTeamcityReport(report types.Report, dst string) error {
 		}
 
 		name = tcEscape(name)
-		fmt.Fprintf(f, "##teamcity[testStarted name='%s']\n", name)
+		fmt.Fprintf(out, "##teamcity[testStarted name='%s']\n", name)
 		switch spec.State {
 		case types.SpecStatePending:
-			fmt.Fprintf(f, "##teamcity[testIgnored name='%s' message='pending']\n", name)
+			fmt.Fprintf(out, "##teamcity[testIgnored name='%s' message='pending']\n", name)
 		case types.SpecStateSkipped:
 			message := "skipped"
 			if spec.Failure.Message != "" {
 				message += " - " + spec.Failure.Message
 			}
-			fmt.Fprintf(f, "##teamcity[testIgnored name='%s' message='%s']\n", name, tcEscape(message))
+			fmt.Fprintf(out, "##teamcity[testIgnored name='%s' message='%s']\n", name, tcEscape(message))
 		case types.SpecStateFailed:
 			details := failureDescriptionForUnstructuredReporters(spec)
-			fmt.Fprintf(f, "##teamcity[testFailed name='%s' message='failed - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
+			fmt.Fprintf(out, "##teamcity[testFailed name='%s' message='failed - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
 		case types.SpecStatePanicked:
 			details := failureDescriptionForUnstructuredReporters(spec)
-			fmt.Fprintf(f, "##teamcity[testFailed name='%s' message='panicked - %s' details='%s']\n", name, tcEscape(spec.Failure.ForwardedPanic), tcEscape(details))
+			fmt.Fprintf(out, "##teamcity[testFailed name='%s' message='panicked - %s' details='%s']\n", name, tcEscape(spec.Failure.ForwardedPanic), tcEscape(details))
 		case types.SpecStateTimedout:
 			details := failureDescriptionForUnstructuredReporters(spec)
-			fmt.Fprintf(f, "##teamcity[testFailed name='%s' message='timedout - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
+			fmt.Fprintf(out, "##teamcity[testFailed name='%s' message='timedout - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
 		case types.SpecStateInterrupted:
 			details := failureDescriptionForUnstructuredReporters(spec)
-			fmt.Fprintf(f, "##teamcity[testFailed name='%s' message='interrupted - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
+			fmt.Fprintf(out, "##teamcity[testFailed name='%s' message='interrupted - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
 		case types.SpecStateAborted:
 			details := failureDescriptionForUnstructuredReporters(spec)
-			fmt.Fprintf(f, "##teamcity[testFailed name='%s' message='aborted - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
+			fmt.Fprintf(out, "##teamcity[testFailed name='%s' message='aborted - %s' details='%s']\n", name, tcEscape(spec.Failure.Message), tcEscape(details))
 		}
 
-		fmt.Fprintf(f, "##teamcity[testStdOut name='%s' out='%s']\n", name, tcEscape(systemOutForUnstructuredReporters(spec)))
-		fmt.Fprintf(f, "##teamcity[testStdErr name='%s' out='%s']\n", name, tcEscape(systemErrForUnstructuredReporters(spec)))
-		fmt.Fprintf(f, "##teamcity[testFinished name='%s' duration='%d']\n", name, int(spec.RunTime.Seconds()*1000.0))
+		fmt.Fprintf(out, "##teamcity[testStdOut name='%s' out='%s']\n", name, tcEscape(systemOutForUnstructuredReporters(spec)))
+		fmt.Fprintf(out, "##teamcity[testStdErr name='%s' out='%s']\n", name, tcEscape(systemErrForUnstructuredReporters(spec)))
+		fmt.Fprintf(out, "##teamcity[testFinished name='%s' duration='%d']\n", name, int(spec.RunTime.Seconds()*1000.0))
 	}
-	fmt.Fprintf(f, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
+	fmt.Fprintf(out, "##teamcity[testSuiteFinished name='%s']\n", tcEscape(report.SuiteDescription))
 
+	if err := out.Flush(); err != nil {
+		f.Close()
+		return err
+	}
 	return f.Close()
 }
 
-- 
2.43.0


From 60e765faa03394a3ec0de0c9be0978602e0e8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 13/28] fix: failing to write the report of a suite that did
 not run is an error

---
 ginkgo/internal/profiles_and_reports.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 8e16d2b..1434e81 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -118,7 +118,10 @@ func FinalizeProfilesAndReportsForSuites(suites TestSuites, cliConfig types.CLIC
 		}
 
 		for _, format := range reportFormats {
-			format.GenerateFunc(report, AbsPathForGeneratedAsset(format.ReportName, suite, cliConfig, 0))
+			err := format.GenerateFunc(report, AbsPathForGeneratedAsset(format.ReportName, suite, cliConfig, 0))
+			if err != nil {
+				return messages, err
+			}
 		}
 	}
 
-- 
2.43.0


From fcade2d39dcfd1b871f97e5ca0754c5f7aa747de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 14/28] fix: watch no longer crashes when a suite disappears
 and comes back

The removed suite stayed tracked while its package hashes were pruned, so the
next delta computed for it dereferenced a nil hash.
---
 ginkgo/watch/delta_tracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginkgo/watch/delta_tracker.go b/ginkgo/watch/delta_tracker.go
index 26418ac..52c614e 100644
--- a/ginkgo/watch/delta_tracker.go
+++ b/ginkgo/watch/delta_tracker.go
@@ -44,6 +44,7 @@ func (d *DeltaTracker) Delta(suites internal.TestSuites) (delta Delta, errors Su
 			}
 		} else {
 			delta.RemovedSuites = append(delta.RemovedSuites, suite)
+			delete(d.suites, suite.Suite.Path)
 		}
 	}
 
-- 
2.43.0


From 413a304ac15c8750fc65419c995539241858cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 15/28] fix: watch reruns a suite when a file is removed, or
 added with an old timestamp

The package was stamped with the newest modification time of the files that
remain, which is older than the last run.
---
 ginkgo/watch/package_hash.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/ginkgo/watch/package_hash.go b/ginkgo/watch/package_hash.go
index 0e6ae1f..58a9cb8 100644
--- a/ginkgo/watch/package_hash.go
+++ b/ginkgo/watch/package_hash.go
@@ -27,13 +27,13 @@ func NewPackageHash(path string, watchRegExp *regexp.Regexp) *PackageHash {
 		watchRegExp: watchRegExp,
 	}
 
-	p.codeHash, _, p.testHash, _, p.Deleted = p.computeHashes()
+	p.codeHash, p.testHash, p.Deleted = p.computeHashes()
 
 	return p
 }
 
 func (p *PackageHash) CheckForChanges() bool {
-	codeHash, codeModifiedTime, testHash, testModifiedTime, deleted := p.computeHashes()
+	codeHash, testHash, deleted := p.computeHashes()
 
 	if deleted {
 		if !p.Deleted {
@@ -49,11 +49,11 @@ func (p *PackageHash) CheckForChanges() bool {
 	p.Deleted = false
 
 	if p.codeHash != codeHash {
-		p.CodeModifiedTime = codeModifiedTime
+		p.CodeModifiedTime = time.Now()
 		modified = true
 	}
 	if p.testHash != testHash {
-		p.TestModifiedTime = testModifiedTime
+		p.TestModifiedTime = time.Now()
 		modified = true
 	}
 
@@ -62,7 +62,7 @@ func (p *PackageHash) CheckForChanges() bool {
 	return modified
 }
 
-func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Time, testHash string, testModifiedTime time.Time, deleted bool) {
+func (p *PackageHash) computeHashes() (codeHash string, testHash string, deleted bool) {
 	entries, err := os.ReadDir(p.path)
 
 	if err != nil {
@@ -86,24 +86,15 @@ func (p *PackageHash) computeHashes() (codeHash string, codeModifiedTime time.Ti
 
 		if goTestRegExp.MatchString(info.Name()) {
 			testHash += p.hashForFileInfo(info)
-			if info.ModTime().After(testModifiedTime) {
-				testModifiedTime = info.ModTime()
-			}
 			continue
 		}
 
 		if p.watchRegExp.MatchString(info.Name()) {
 			codeHash += p.hashForFileInfo(info)
-			if info.ModTime().After(codeModifiedTime) {
-				codeModifiedTime = info.ModTime()
-			}
 		}
 	}
 
 	testHash += codeHash
-	if codeModifiedTime.After(testModifiedTime) {
-		testModifiedTime = codeModifiedTime
-	}
 
 	return
 }
-- 
2.43.0


From da9ea404c8387f415583de31b8373625ddc97604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 16/28] fix: coverage profiles that cannot be merged are an
 error

Blocks that overlap or use another mode were silently dropped.
---
 ginkgo/internal/gocovmerge.go           | 8 +++++---
 ginkgo/internal/profiles_and_reports.go | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ginkgo/internal/gocovmerge.go b/ginkgo/internal/gocovmerge.go
index 87cfa11..99cef84 100644
--- a/ginkgo/internal/gocovmerge.go
+++ b/ginkgo/internal/gocovmerge.go
@@ -36,16 +36,18 @@ import (
 	"golang.org/x/tools/cover"
 )
 
-func AddCoverProfile(profiles []*cover.Profile, p *cover.Profile) []*cover.Profile {
+func AddCoverProfile(profiles []*cover.Profile, p *cover.Profile) ([]*cover.Profile, error) {
 	i := sort.Search(len(profiles), func(i int) bool { return profiles[i].FileName >= p.FileName })
 	if i < len(profiles) && profiles[i].FileName == p.FileName {
-		MergeCoverProfiles(profiles[i], p)
+		if err := MergeCoverProfiles(profiles[i], p); err != nil {
+			return nil, err
+		}
 	} else {
 		profiles = append(profiles, nil)
 		copy(profiles[i+1:], profiles[i:])
 		profiles[i] = p
 	}
-	return profiles
+	return profiles, nil
 }
 
 func DumpCoverProfiles(profiles []*cover.Profile, out io.Writer) error {
diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 1434e81..5a517b6 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -157,7 +157,10 @@ func MergeAndCleanupCoverProfiles(profiles []string, destination string) error {
 		}
 		os.Remove(file)
 		for _, p := range parsedProfiles {
-			merged = AddCoverProfile(merged, p)
+			merged, err = AddCoverProfile(merged, p)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	dst, err := os.OpenFile(destination, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
-- 
2.43.0


From fe1e371c75fbb2b3407b4d932e370a339d150416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 17/28] fix: run-once teardown runs when Skip() in a nested
 run-once node skips the rest of its container

---
 internal/group.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/group.go b/internal/group.go
index 08acaa4..f7e3cd7 100644
--- a/internal/group.go
+++ b/internal/group.go
@@ -149,12 +149,9 @@ func (g *group) evaluateSkipStatus(spec Spec) (types.SpecState, types.Failure) {
 		return types.SpecStateSkipped, g.suite.failureForLeafNodeWithMessage(spec.FirstNodeWithType(types.NodeTypeIt),
 			"Spec skipped because a BeforeAll node failed")
 	}
-	beforeOncePairs := g.runOncePairs[spec.SubjectID()].withType(types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach)
-	for _, pair := range beforeOncePairs {
-		if g.runOnceTracker[pair].Is(types.SpecStateSkipped) {
-			return types.SpecStateSkipped, g.suite.failureForLeafNodeWithMessage(spec.FirstNodeWithType(types.NodeTypeIt),
-				fmt.Sprintf("Spec skipped because Skip() was called in %s", pair.nodeType))
-		}
+	if pair := g.skippedRunOncePairFor(spec.SubjectID()); !pair.isZero() {
+		return types.SpecStateSkipped, g.suite.failureForLeafNodeWithMessage(spec.FirstNodeWithType(types.NodeTypeIt),
+			fmt.Sprintf("Spec skipped because Skip() was called in %s", pair.nodeType))
 	}
 	if g.suite.config.DryRun {
 		return types.SpecStatePassed, types.Failure{}
@@ -162,6 +159,16 @@ func (g *group) evaluateSkipStatus(spec Spec) (types.SpecState, types.Failure) {
 	return g.suite.currentSpecReport.State, g.suite.currentSpecReport.Failure
 }
 
+// skippedRunOncePairFor returns the first run-once setup pair of the spec in which Skip() was called
+func (g *group) skippedRunOncePairFor(specID uint) runOncePair {
+	for _, pair := range g.runOncePairs[specID].withType(types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach) {
+		if g.runOnceTracker[pair].Is(types.SpecStateSkipped) {
+			return pair
+		}
+	}
+	return runOncePair{}
+}
+
 func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 	lastSpecID := uint(0)
 	for idx := range g.specs {
@@ -169,6 +176,10 @@ func (g *group) isLastSpecWithPair(specID uint, pair runOncePair) bool {
 			continue
 		}
 		sID := g.specs[idx].SubjectID()
+		if sID != specID && !g.skippedRunOncePairFor(sID).isZero() {
+			// Skip() was called in a run-once node of this spec, so the spec will not run
+			continue
+		}
 		if g.runOncePairs[sID].hasRunOncePair(pair) {
 			lastSpecID = sID
 		}
-- 
2.43.0


From 70d415a7f6938b3a81ed8866d710ba155da9ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 18/28] fix: the core shorthand package's When is the main
 package's When, prefixing its text

---
 dsl/core/core_dsl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsl/core/core_dsl.go b/dsl/core/core_dsl.go
index b2dad1b..070aa00 100644
--- a/dsl/core/core_dsl.go
+++ b/dsl/core/core_dsl.go
@@ -45,7 +45,7 @@ var FDescribe = ginkgo.FDescribe
 var PDescribe = ginkgo.PDescribe
 var XDescribe = PDescribe
 var Context, FContext, PContext, XContext = Describe, FDescribe, PDescribe, XDescribe
-var When, FWhen, PWhen, XWhen = Describe, FDescribe, PDescribe, XDescribe
+var When, FWhen, PWhen, XWhen = ginkgo.When, ginkgo.FWhen, ginkgo.PWhen, ginkgo.XWhen
 var It = ginkgo.It
 var FIt = ginkgo.FIt
 var PIt = ginkgo.PIt
-- 
2.43.0


From 0cb231cd979d14757343578ff276c4a3ec1f6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 19/28] fix: a timeout or grace period of zero given to the
 ginkgo command reaches the test processes

---
 types/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/config.go b/types/config.go
index 2e827ef..a7f6790 100644
--- a/types/config.go
+++ b/types/config.go
@@ -300,9 +300,9 @@ var SuiteConfigFlags = GinkgoFlags{
 	{KeyPath: "S.SourceRoots", Name: "source-root", SectionKey: "debug",
 		Usage: "The location to look for source code when generating progress reports.  You can pass multiple --source-root flags."},
 	{KeyPath: "S.Timeout", Name: "timeout", SectionKey: "debug", UsageDefaultValue: "1h",
-		Usage: "Test suite fails if it does not complete within the specified timeout."},
+		Usage: "Test suite fails if it does not complete within the specified timeout.", AlwaysExport: true},
 	{KeyPath: "S.GracePeriod", Name: "grace-period", SectionKey: "debug", UsageDefaultValue: "30s",
-		Usage: "When interrupted, Ginkgo will wait for GracePeriod for the current running node to exit before moving on to the next one."},
+		Usage: "When interrupted, Ginkgo will wait for GracePeriod for the current running node to exit before moving on to the next one.", AlwaysExport: true},
 	{KeyPath: "S.OutputInterceptorMode", Name: "output-interceptor-mode", SectionKey: "debug", UsageArgument: "dup, swap, or none",
 		Usage: "If set, ginkgo will use the specified output interception strategy when running in parallel.  Defaults to dup on unix and swap on windows."},
 
-- 
2.43.0


From 4da57f8d61807db553344c42ffc24892e15e0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 20/28] fix: re-encode decoded report entry values without
 losing their JSON or representation

---
 types/report_entry.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types/report_entry.go b/types/report_entry.go
index 63f7a9f..be24345 100644
--- a/types/report_entry.go
+++ b/types/report_entry.go
@@ -25,6 +25,9 @@ func (rev ReportEntryValue) GetRawValue() any {
 }
 
 func (rev ReportEntryValue) String() string {
+	if rev.AsJSON != "" { //decoded values only have their representation
+		return rev.Representation
+	}
 	if rev.raw == nil {
 		return ""
 	}
@@ -50,6 +53,11 @@ func (rev ReportEntryValue) MarshalJSON() ([]byte, error) {
 	}{
 		Representation: rev.String(),
 	}
+	if rev.AsJSON != "" {
+		//this value was decoded: decoding its JSON can lose precision so we pass it on as it is
+		out.AsJSON = rev.AsJSON
+		return json.Marshal(out)
+	}
 	asJSON, err := json.Marshal(rev.raw)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fbfb713c9259bfe6d4763ff2e3cd7a8cdce7e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 21/28] fix: report a failure to close the merged cover profile

---
 ginkgo/internal/profiles_and_reports.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginkgo/internal/profiles_and_reports.go b/ginkgo/internal/profiles_and_reports.go
index 5a517b6..355d684 100644
--- a/ginkgo/internal/profiles_and_reports.go
+++ b/ginkgo/internal/profiles_and_reports.go
@@ -167,12 +167,12 @@ func MergeAndCleanupCoverProfiles(profiles []string, destination string) error {
 	if err != nil {
 		return err
 	}
-	defer dst.Close()
 	err = DumpCoverProfiles(merged, dst)
 	if err != nil {
+		dst.Close()
 		return err
 	}
-	return nil
+	return dst.Close()
 }
 
 func GetCoverageFromCoverProfile(profile string) (float64, error) {
-- 
2.43.0


From 13b80ed40fc9277f22fb3f4cb4a52caba2b0cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 22/28] fix: count the failure element of an aborted spec as a
 failure in the JUnit totals

---
 reporters/junit_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reporters/junit_report.go b/reporters/junit_report.go
index 1ec4cdd..cfede20 100644
--- a/reporters/junit_report.go
+++ b/reporters/junit_report.go
@@ -274,7 +274,7 @@ func GenerateJUnitReportWithConfig(report types.Report, dst string, config Junit
 			if config.OmitFailureMessageAttr {
 				test.Failure.Message = ""
 			}
-			suite.Errors += 1
+			suite.Failures += 1
 		case types.SpecStatePanicked:
 			test.Error = &JUnitError{
 				Message:     spec.Failure.ForwardedPanic,
-- 
2.43.0


From 4e96f150cd048b87617e8c3c20821861671516c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 23/28] fix: point the testing.T stand-in's failures and
 cleanups at the caller

---
 internal/testingtproxy/testing_t_proxy.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/testingtproxy/testing_t_proxy.go b/internal/testingtproxy/testing_t_proxy.go
index b4ecc7c..6bb5c2a 100644
--- a/internal/testingtproxy/testing_t_proxy.go
+++ b/internal/testingtproxy/testing_t_proxy.go
@@ -64,40 +64,40 @@ type ginkgoTestingTProxy struct {
 // basic testing.T support
 
 func (t *ginkgoTestingTProxy) Cleanup(f func()) {
-	t.cleanup(f, internal.Offset(1))
+	t.cleanup(f, internal.Offset(t.offset))
 }
 
 func (t *ginkgoTestingTProxy) Setenv(key, value string) {
 	originalValue, exists := os.LookupEnv(key)
 	if exists {
-		t.cleanup(os.Setenv, key, originalValue, internal.Offset(1))
+		t.cleanup(os.Setenv, key, originalValue, internal.Offset(t.offset))
 	} else {
-		t.cleanup(os.Unsetenv, key, internal.Offset(1))
+		t.cleanup(os.Unsetenv, key, internal.Offset(t.offset))
 	}
 
 	err := os.Setenv(key, value)
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to set environment variable: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to set environment variable: %v", err), t.offset)
 	}
 }
 
 func (t *ginkgoTestingTProxy) Chdir(dir string) {
 	currentDir, err := os.Getwd()
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to get current directory: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to get current directory: %v", err), t.offset)
 	}
 
-	t.cleanup(os.Chdir, currentDir, internal.Offset(1))
+	t.cleanup(os.Chdir, currentDir, internal.Offset(t.offset))
 
 	err = os.Chdir(dir)
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to change directory: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to change directory: %v", err), t.offset)
 	}
 }
 
 func (t *ginkgoTestingTProxy) Context() context.Context {
 	ctx, cancel := context.WithCancel(context.Background())
-	t.cleanup(cancel, internal.Offset(1))
+	t.cleanup(cancel, internal.Offset(t.offset))
 	return ctx
 }
 
@@ -168,10 +168,10 @@ func (t *ginkgoTestingTProxy) Skipped() bool {
 func (t *ginkgoTestingTProxy) TempDir() string {
 	tmpDir, err := os.MkdirTemp("", "ginkgo")
 	if err != nil {
-		t.fail(fmt.Sprintf("Failed to create temporary directory: %v", err), 1)
+		t.fail(fmt.Sprintf("Failed to create temporary directory: %v", err), t.offset)
 		return ""
 	}
-	t.cleanup(os.RemoveAll, tmpDir)
+	t.cleanup(os.RemoveAll, tmpDir, internal.Offset(t.offset))
 
 	return tmpDir
 }
-- 
2.43.0


From da91c0dd5768ebe5fe5e6fda646b8f17112160b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 24/28] fix: keep the timestamp passed to AddReportEntry

---
 internal/suite.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/suite.go b/internal/suite.go
index bca4b09..8601e8f 100644
--- a/internal/suite.go
+++ b/internal/suite.go
@@ -364,7 +364,6 @@ func (suite *Suite) AddReportEntry(entry ReportEntry) error {
 		return types.GinkgoErrors.AddReportEntryNotDuringRunPhase(entry.Location)
 	}
 	entry.TimelineLocation = suite.generateTimelineLocation()
-	entry.Time = entry.TimelineLocation.Time
 	suite.selectiveLock.Lock()
 	suite.currentSpecReport.ReportEntries = append(suite.currentSpecReport.ReportEntries, entry)
 	suite.selectiveLock.Unlock()
-- 
2.43.0


From 3b3fa877019ae459d7744e7e577d41de163bb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 25/28] fix: do not use error and usage texts as format strings

---
 core_dsl.go               | 2 +-
 ginkgo/command/command.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core_dsl.go b/core_dsl.go
index d027bdf..5502a0c 100644
--- a/core_dsl.go
+++ b/core_dsl.go
@@ -337,7 +337,7 @@ func extractSuiteConfiguration(args []any) Labels {
 	if len(configErrors) > 0 {
 		fmt.Fprintf(formatter.ColorableStdErr, formatter.F("{{red}}Ginkgo detected configuration issues:{{/}}\n"))
 		for _, err := range configErrors {
-			fmt.Fprintf(formatter.ColorableStdErr, err.Error())
+			fmt.Fprint(formatter.ColorableStdErr, err.Error())
 		}
 		os.Exit(1)
 	}
diff --git a/ginkgo/command/command.go b/ginkgo/command/command.go
index 79b83a3..a30a2ec 100644
--- a/ginkgo/command/command.go
+++ b/ginkgo/command/command.go
@@ -22,11 +22,11 @@ type Command struct {
 func (c Command) Run(args []string, additionalArgs []string) {
 	args, err := c.Flags.Parse(args)
 	if err != nil {
-		AbortWithUsage(err.Error())
+		AbortWithUsage("%s", err.Error())
 	}
 	for _, arg := range args {
 		if len(arg) > 1 && strings.HasPrefix(arg, "-") {
-			AbortWith(types.GinkgoErrors.FlagAfterPositionalParameter().Error())
+			AbortWith("%s", types.GinkgoErrors.FlagAfterPositionalParameter().Error())
 		}
 	}
 	c.Command(args, additionalArgs)
@@ -49,6 +49,6 @@ func (c Command) EmitUsage(writer io.Writer) {
 	}
 	flagUsage := c.Flags.Usage()
 	if flagUsage != "" {
-		fmt.Fprintf(writer, formatter.F(flagUsage))
+		fmt.Fprint(writer, formatter.F(flagUsage))
 	}
 }
-- 
2.43.0


From d1346ce6dc4c5d1fabc0978d5f9493cf4e40b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 26/28] fix: report misused node arguments as errors instead of
 panicking

---
 internal/node.go | 64 ++++++++++++++++++++++++++++++++----------------
 table_dsl.go     |  4 +++
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/internal/node.go b/internal/node.go
index 8096950..92711ad 100644
--- a/internal/node.go
+++ b/internal/node.go
@@ -311,7 +311,7 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 					appendError(err)
 				}
 			}
-		case t.Kind() == reflect.Func:
+		case t != nil && t.Kind() == reflect.Func:
 			if nodeType.Is(types.NodeTypeContainer) {
 				if node.Body != nil {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -323,15 +323,23 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 					trackedFunctionError = true
 					break
 				}
-				body := arg.(func())
+				body, ok := arg.(func())
+				if !ok {
+					appendError(types.GinkgoErrors.InvalidBodyTypeForContainer(t, node.CodeLocation, nodeType))
+					trackedFunctionError = true
+					break
+				}
 				node.Body = func(SpecContext) { body() }
 			} else if nodeType.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach) {
 				if node.ReportEachBody == nil {
 					if fn, ok := arg.(func(types.SpecReport)); ok {
 						node.ReportEachBody = func(_ SpecContext, r types.SpecReport) { fn(r) }
-					} else {
-						node.ReportEachBody = arg.(func(SpecContext, types.SpecReport))
+					} else if fn, ok := arg.(func(SpecContext, types.SpecReport)); ok {
+						node.ReportEachBody = fn
 						node.HasContext = true
+					} else {
+						appendError(types.GinkgoErrors.InvalidBodyType(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -342,9 +350,12 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 				if node.ReportSuiteBody == nil {
 					if fn, ok := arg.(func(types.Report)); ok {
 						node.ReportSuiteBody = func(_ SpecContext, r types.Report) { fn(r) }
-					} else {
-						node.ReportSuiteBody = arg.(func(SpecContext, types.Report))
+					} else if fn, ok := arg.(func(SpecContext, types.Report)); ok {
+						node.ReportSuiteBody = fn
 						node.HasContext = true
+					} else {
+						appendError(types.GinkgoErrors.InvalidBodyType(t, node.CodeLocation, nodeType))
+						trackedFunctionError = true
 					}
 				} else {
 					appendError(types.GinkgoErrors.MultipleBodyFunctions(node.CodeLocation, nodeType))
@@ -434,6 +445,14 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
 	}
 
+	if node.NodeType.Is(types.NodeTypeReportBeforeEach|types.NodeTypeReportAfterEach) && node.ReportEachBody == nil && !trackedFunctionError {
+		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
+	}
+
+	if node.NodeType.Is(types.NodeTypeReportBeforeSuite|types.NodeTypeReportAfterSuite) && node.ReportSuiteBody == nil && !trackedFunctionError {
+		appendError(types.GinkgoErrors.MissingBodyFunction(node.CodeLocation, nodeType))
+	}
+
 	for _, arg := range remainingArgs {
 		appendError(types.GinkgoErrors.UnknownDecorator(node.CodeLocation, nodeType, arg))
 	}
@@ -449,30 +468,33 @@ func NewNode(deprecationTracker *types.DeprecationTracker, nodeType types.NodeTy
 	return node, errors
 }
 
-var doneType = reflect.TypeOf(make(Done))
-
 func extractBodyFunction(deprecationTracker *types.DeprecationTracker, cl types.CodeLocation, arg any) (func(SpecContext), bool) {
 	t := reflect.TypeOf(arg)
 	if t.NumOut() > 0 || t.NumIn() > 1 {
 		return nil, false
 	}
 	if t.NumIn() == 1 {
-		if t.In(0) == doneType {
+		if deprecatedAsyncBody, ok := arg.(func(Done)); ok {
 			deprecationTracker.TrackDeprecation(types.Deprecations.Async(), cl)
-			deprecatedAsyncBody := arg.(func(Done))
 			return func(SpecContext) { deprecatedAsyncBody(make(Done)) }, false
-		} else if t.In(0).Implements(specContextType) {
-			return arg.(func(SpecContext)), true
-		} else if t.In(0).Implements(contextType) {
-			body := arg.(func(context.Context))
+		} else if body, ok := arg.(func(SpecContext)); ok {
+			return body, true
+		} else if body, ok := arg.(func(context.Context)); ok {
 			return func(c SpecContext) { body(c) }, true
 		}
 
 		return nil, false
 	}
 
-	body := arg.(func())
-	return func(SpecContext) { body() }, false
+	if body, ok := arg.(func()); ok {
+		return func(SpecContext) { body() }, false
+	}
+	return nil, false
+}
+
+// acceptsSpecContext is true for context types that a SpecContext can be passed in as
+func acceptsSpecContext(t reflect.Type) bool {
+	return t.Implements(contextType) && specContextType.AssignableTo(t)
 }
 
 var byteType = reflect.TypeOf([]byte{})
@@ -485,7 +507,7 @@ func extractSynchronizedBeforeSuiteProc1Body(arg any) (func(SpecContext) []byte,
 		return nil, false
 	} else if t.NumOut() == 1 && t.Out(0) != byteType {
 		return nil, false
-	} else if t.NumIn() == 1 && !t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && !acceptsSpecContext(t.In(0)) {
 		return nil, false
 	}
 	hasContext := t.NumIn() == 1
@@ -510,11 +532,11 @@ func extractSynchronizedBeforeSuiteAllProcsBody(arg any) (func(SpecContext, []by
 	v := reflect.ValueOf(arg)
 	hasContext, hasByte := false, false
 
-	if t.NumOut() > 0 || t.NumIn() > 2 {
+	if t.NumOut() > 0 || t.NumIn() > 2 || t.IsVariadic() {
 		return nil, false
-	} else if t.NumIn() == 2 && t.In(0).Implements(contextType) && t.In(1) == byteType {
+	} else if t.NumIn() == 2 && acceptsSpecContext(t.In(0)) && t.In(1) == byteType {
 		hasContext, hasByte = true, true
-	} else if t.NumIn() == 1 && t.In(0).Implements(contextType) {
+	} else if t.NumIn() == 1 && acceptsSpecContext(t.In(0)) {
 		hasContext = true
 	} else if t.NumIn() == 1 && t.In(0) == byteType {
 		hasByte = true
@@ -572,7 +594,7 @@ func NewCleanupNode(deprecationTracker *types.DeprecationTracker, fail func(stri
 	if t.NumIn() > 0 {
 		if t.In(0).Implements(specContextType) {
 			hasContext = true
-		} else if t.In(0).Implements(contextType) && (len(callArgs) == 0 || !callArgs[0].Type().Implements(contextType)) {
+		} else if t.In(0).Implements(contextType) && (len(callArgs) == 0 || !callArgs[0].IsValid() || !callArgs[0].Type().Implements(contextType)) {
 			hasContext = true
 		}
 	}
diff --git a/table_dsl.go b/table_dsl.go
index b9e0ca9..ef7dd58 100644
--- a/table_dsl.go
+++ b/table_dsl.go
@@ -241,6 +241,10 @@ func generateTable(description string, isSubtree bool, args ...any) {
 		}
 	}
 
+	if internalBody == nil {
+		exitIfErr(types.GinkgoErrors.MissingParametersForTableFunction(cl))
+	}
+
 	containerNodeArgs = append(containerNodeArgs, func() {
 		for _, entry := range entries {
 			var err error
-- 
2.43.0


From d6c6dc83f2b1b7e4a81e90807985c2a8a75ac192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 27/28] fix: binaries compiled ahead are removed when ginkgo
 run is interrupted

---
 ginkgo/run/run_command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginkgo/run/run_command.go b/ginkgo/run/run_command.go
index a239400..30533d5 100644
--- a/ginkgo/run/run_command.go
+++ b/ginkgo/run/run_command.go
@@ -120,6 +120,9 @@ OUTER_LOOP:
 
 			if r.interruptHandler.Status().Interrupted() {
 				opc.StopAndDrain()
+				for idx, compiled := opc.Next(); idx < len(suites); idx, compiled = opc.Next() {
+					suites[idx].PathToCompiledTest = compiled.PathToCompiledTest // so that it gets cleaned up
+				}
 				interrupted = true
 				break OUTER_LOOP
 			}
-- 
2.43.0


From 16e2be7946736ae0e3b6a61f985551eea3e23a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 28/28] fix: watch removes the compiled binary when it is
 interrupted before running it

---
 ginkgo/watch/watch_command.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginkgo/watch/watch_command.go b/ginkgo/watch/watch_command.go
index fe1ca30..a079328 100644
--- a/ginkgo/watch/watch_command.go
+++ b/ginkgo/watch/watch_command.go
@@ -159,6 +159,7 @@ func (w *SpecWatcher) compileAndRun(suite internal.TestSuite, additionalArgs []s
 		return suite
 	}
 	if w.interruptHandler.Status().Interrupted() {
+		internal.Cleanup(w.goFlagsConfig, suite)
 		return suite
 	}
 	suite = internal.RunCompiledSuite(suite, w.suiteConfig, w.reporterConfig, w.cliConfig, w.goFlagsConfig, additionalArgs)
-- 
2.43.0

