From f97d82b2561f20cd44f944864a53c5209ab2b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 01/27] fix: release consecutive ready tasks in the dependency
 graph

Removing a task from the pending list skipped the task after it, so it was
not released until some later completion.
---
 internal/dag/dependency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 00df408..fa57c71 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -73,11 +73,13 @@ func (g *DependencyGraph) Next(completed string) []string {
 	}
 	g.pending = head
 
-	for head = g.pending; head != nil && head.next != nil; head = head.next {
+	for head = g.pending; head != nil && head.next != nil; {
 		p := head.next
 		if g.dependencies[p.id].Size() < 1 {
 			ready = append(ready, p.id)
 			head.next = p.next
+		} else {
+			head = p
 		}
 	}
 	return ready
-- 
2.43.0


From 4f54220e8e4571de4a41753ff9e45ab814c2be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 02/27] fix: do not treat the start of a dependency graph as a
 completion

The first call names no completed task; a task whose name is empty was
taken as completed by it, and its dependents were released too early.
---
 internal/dag/dependency.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index fa57c71..b307cb7 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -5,6 +5,7 @@ type DependencyGraph struct {
 	dependencies map[string]NodeSet
 	dependents   map[string]NodeSet
 	pending      *pendingTask
+	released     NodeSet
 }
 
 type pendingTask struct {
@@ -22,6 +23,7 @@ func NewDependencyGraph(nodes map[string][]string) (*DependencyGraph, error) {
 	g := &DependencyGraph{
 		dependencies: map[string]NodeSet{},
 		dependents:   map[string]NodeSet{},
+		released:     NodeSet{},
 	}
 	nodeOrder, cycle := TSort(digraph)
 	if cycle != nil {
@@ -62,8 +64,10 @@ func (g *DependencyGraph) HasPending() bool {
 // that can be started given previously completed tasks
 func (g *DependencyGraph) Next(completed string) []string {
 	var ready []string
-	for id := range g.dependents[completed] {
-		g.dependencies[id].Remove(completed)
+	if g.released.Contains(completed) {
+		for id := range g.dependents[completed] {
+			g.dependencies[id].Remove(completed)
+		}
 	}
 
 	head := g.pending
@@ -82,5 +86,8 @@ func (g *DependencyGraph) Next(completed string) []string {
 			head = p
 		}
 	}
+	for _, id := range ready {
+		g.released.Add(id)
+	}
 	return ready
 }
-- 
2.43.0


From b4459e39a99c86cc400a883e968dbd75db9cc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 03/27] fix: report the nodes of a cycle that closes at an
 empty name

---
 internal/dag/tsort.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/internal/dag/tsort.go b/internal/dag/tsort.go
index faafd19..795feba 100644
--- a/internal/dag/tsort.go
+++ b/internal/dag/tsort.go
@@ -46,30 +46,27 @@ type visitor struct {
 	sorted   []string
 }
 
-func (v *visitor) visit(n string) (cycleStart string) {
+func (v *visitor) visit(n string) (cycleStart string, onCycle bool) {
 	if _, ok := v.visiting[n]; ok {
 		if v.cycle == nil {
 			v.cycle = make([]string, 0)
 		}
-		return n
+		return n, true
 	} else if _, ok := v.visited[n]; ok {
-		return ""
+		return "", false
 	}
 	v.visiting[n] = struct{}{}
 	for _, m := range v.graph[n] {
-		cycleStart := v.visit(m)
+		cycleStart, onCycle := v.visit(m)
 		if v.cycle != nil {
-			if cycleStart != "" {
-				if n == cycleStart {
-					cycleStart = ""
-				}
+			if onCycle {
 				v.cycle = append(v.cycle, n)
 			}
-			return cycleStart
+			return cycleStart, onCycle && n != cycleStart
 		}
 	}
 	delete(v.visiting, n)
 	v.visited[n] = struct{}{}
 	v.sorted = append(v.sorted, n)
-	return ""
+	return "", false
 }
-- 
2.43.0


From f45b5b72d952be69b131a11245a8b67042efabcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 04/27] fix: end a run that has no tasks

The scheduler waited for the completion of a task that was never started.
---
 internal/runbook/runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index fa46adb..9d55352 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -97,7 +97,7 @@ func (r *runner) startScheduler() {
 		r.log.Debug("scheduler: started")
 		s, ready, err := scheduler.New(r.targets, r.tasks)
 		for {
-			if err != nil {
+			if err != nil || len(r.tasks) < 1 {
 				break
 			}
 			for targetID, taskIDs := range ready {
-- 
2.43.0


From a4ebeadbbb12107e1645c94768a3925fe582bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 05/27] fix: do not block the router when a task fails

A target stopped reading its tasks after a failure, so a second task
already handed out to it blocked the router and the run never ended.
---
 internal/runbook/runner.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 9d55352..c593afc 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -170,15 +170,17 @@ func startTargetGoroutine(
 	ended chan<- *endedMsg,
 ) {
 	go func() {
+		failed := false
 		for x := range ready {
+			if failed {
+				continue // keep draining so the router is never blocked
+			}
 			if x.message != "" {
 				log.Info(x.message)
 			}
 			err := target.Handle(ctx, x.task)
 			ended <- &endedMsg{taskID: x.taskID, err: err}
-			if err != nil {
-				break
-			}
+			failed = err != nil
 		}
 		target.Stop()
 		wg.Done()
-- 
2.43.0


From 0df54223fdf3a9882ef02d46e13c29aca523fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 06/27] fix: report tasks that cannot be scheduled

A dependency cycle or a dependency on an unknown task was ignored and the
run reported success without executing anything.
---
 internal/runbook/runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index c593afc..04378bd 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -119,6 +119,9 @@ func (r *runner) startScheduler() {
 				break
 			}
 		}
+		if err != nil && err != scheduler.ErrNoPendingTasks {
+			r.ended <- &endedMsg{err: err}
+		}
 		r.log.Debug("scheduler: stopped")
 	}(r.ready, r.done)
 }
-- 
2.43.0


From 3fe7a6d399e41c81ca54ac9950fa8e5cfac3d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 07/27] fix: shut down cleanly when a target does not start

The targets already started were never stopped and the goroutines of the
run were left blocked.
---
 internal/runbook/runner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 04378bd..c613622 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -66,6 +66,10 @@ func (r *runner) run() error {
 	r.startScheduler()
 	err := r.startTargets()
 	if err != nil {
+		r.closeDone()
+		for range r.ended {
+			// wait for the started targets to stop
+		}
 		return err
 	}
 
@@ -145,10 +149,14 @@ func (r *runner) startTargets() (err error) {
 
 	// start goroutine, even if there's an error, because it's
 	// responsible for closing channels
+	failed := err != nil
 	go func() {
 		r.log.Debug("router: started")
 		for x := range r.ready {
 			r.log.Debugw("router: task ready", "task", x.taskID, "target", x.target)
+			if failed {
+				continue // a target did not start
+			}
 			ch := channels[x.target]
 			ch <- x
 		}
-- 
2.43.0


From f5a06869fd8e47cb4161054a4bc19e3711f54141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 08/27] fix: accept DEFERRABLE at the end of a definition or
 before a single blank

---
 internal/ddl/check_parser.go       | 32 ++++++++++-----------
 internal/ddl/check_parser.rl       | 10 +++----
 internal/ddl/foreign_key_parser.go | 32 ++++++++++-----------
 internal/ddl/foreign_key_parser.rl | 10 +++----
 internal/ddl/trigger_parser.go     | 46 +++++++-----------------------
 internal/ddl/trigger_parser.rl     | 10 +++----
 6 files changed, 57 insertions(+), 83 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 83d0ae7..3feca15 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -75,8 +75,8 @@ func ParseCheck(data string) (*Check, error) {
 		goto st_case_16
 	case 17:
 		goto st_case_17
-	case 18:
-		goto st_case_18
+	case 60:
+		goto st_case_60
 	case 58:
 		goto st_case_58
 	case 19:
@@ -446,30 +446,30 @@ tr11:
 		case 41:
 			goto tr11
 		case 69:
-			goto st18
+			goto tr21
 		case 101:
-			goto st18
+			goto tr21
 		}
 		goto st8
-	st18:
+tr21:
+//line check_parser.rl:26
+ check.Deferrable = true 
+	goto st60
+	st60:
 		if p++; p == pe {
-			goto _test_eof18
+			goto _test_eof60
 		}
-	st_case_18:
+	st_case_60:
 		switch data[p] {
 		case 32:
-			goto tr21
+			goto st58
 		case 41:
 			goto tr11
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr21
+			goto st58
 		}
 		goto st8
-tr21:
-//line check_parser.rl:26
- check.Deferrable = true 
-	goto st58
 	st58:
 		if p++; p == pe {
 			goto _test_eof58
@@ -478,7 +478,7 @@ tr21:
 //line check_parser.go:479
 		switch data[p] {
 		case 32:
-			goto tr21
+			goto st58
 		case 41:
 			goto tr11
 		case 73:
@@ -487,7 +487,7 @@ tr21:
 			goto st19
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr21
+			goto st58
 		}
 		goto st8
 	st19:
@@ -1064,7 +1064,7 @@ tr39:
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
 	_test_eof17: cs = 17; goto _test_eof
-	_test_eof18: cs = 18; goto _test_eof
+	_test_eof60: cs = 60; goto _test_eof
 	_test_eof58: cs = 58; goto _test_eof
 	_test_eof19: cs = 19; goto _test_eof
 	_test_eof20: cs = 20; goto _test_eof
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 44f37ba..2be2560 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -32,12 +32,12 @@ func ParseCheck(data string) (*Check, error) {
 		'CHECK'i space* '(' % setMark1
 		  any**
 		')' @ setMark2
-		( ws ( 'NOT'i ws 'DEFERRABLE'i )
-		| ws ( 'DEFERRABLE'i ws @ matchDeferrable )?
-		  ( 'INITIALLY'i ws 'IMMEDIATE'i
-		  | 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
+		( ws 'NOT'i ws 'DEFERRABLE'i
+		| ( ws 'DEFERRABLE'i @ matchDeferrable )?
+		  ( ws 'INITIALLY'i ws 'IMMEDIATE'i
+		  | ws 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
 		  )?
-		)?
+		)
 		space*;
 
 	write init;
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 1b19665..471e3d9 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -128,8 +128,8 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 		goto st_case_41
 	case 42:
 		goto st_case_42
-	case 43:
-		goto st_case_43
+	case 196:
+		goto st_case_196
 	case 188:
 		goto st_case_188
 	case 44:
@@ -1165,27 +1165,27 @@ tr38:
 	st_case_42:
 		switch data[p] {
 		case 69:
-			goto st43
+			goto tr51
 		case 101:
-			goto st43
+			goto tr51
 		}
 		goto st0
-	st43:
+tr51:
+//line foreign_key_parser.rl:51
+ fk.Deferrable = true 
+	goto st196
+	st196:
 		if p++; p == pe {
-			goto _test_eof43
+			goto _test_eof196
 		}
-	st_case_43:
+	st_case_196:
 		if data[p] == 32 {
-			goto tr51
+			goto st188
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr51
+			goto st188
 		}
 		goto st0
-tr51:
-//line foreign_key_parser.rl:51
- fk.Deferrable = true 
-	goto st188
 	st188:
 		if p++; p == pe {
 			goto _test_eof188
@@ -1194,14 +1194,14 @@ tr51:
 //line foreign_key_parser.go:1195
 		switch data[p] {
 		case 32:
-			goto tr51
+			goto st188
 		case 73:
 			goto st44
 		case 105:
 			goto st44
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr51
+			goto st188
 		}
 		goto st0
 	st44:
@@ -3790,7 +3790,7 @@ tr193:
 	_test_eof40: cs = 40; goto _test_eof
 	_test_eof41: cs = 41; goto _test_eof
 	_test_eof42: cs = 42; goto _test_eof
-	_test_eof43: cs = 43; goto _test_eof
+	_test_eof196: cs = 196; goto _test_eof
 	_test_eof188: cs = 188; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index 17a6cfe..119b0e8 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -68,12 +68,12 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 		( ws 'MATCH'i ws ( match $ addToBuffer % setMatch ) )?
 		( ws 'ON'i ws 'DELETE'i ws ( onaction $ addToBuffer % setOnDelete ) )?
 		( ws 'ON'i ws 'UPDATE'i ws ( onaction $ addToBuffer % setOnUpdate ) )?
-		( ws ( 'NOT'i ws 'DEFERRABLE'i )
-		| ws ( 'DEFERRABLE'i ws @ matchDeferrable )?
-		  ( 'INITIALLY'i ws 'IMMEDIATE'i
-		  | 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
+		( ws 'NOT'i ws 'DEFERRABLE'i
+		| ( ws 'DEFERRABLE'i @ matchDeferrable )?
+		  ( ws 'INITIALLY'i ws 'IMMEDIATE'i
+		  | ws 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
 		  )?
-		)?
+		)
 		space*
 		;
 
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index 8b8cc35..1df8a62 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -156,8 +156,6 @@ func ParseTrigger(data string) (*Trigger, error) {
 		goto st_case_57
 	case 58:
 		goto st_case_58
-	case 59:
-		goto st_case_59
 	case 60:
 		goto st_case_60
 	case 61:
@@ -1307,58 +1305,35 @@ tr55:
 	st_case_56:
 		switch data[p] {
 		case 69:
-			goto st57
+			goto tr71
 		case 101:
-			goto st57
+			goto tr71
 		}
 		goto st0
+tr71:
+//line trigger_parser.rl:48
+ trigger.Deferrable = true 
+	goto st57
 	st57:
 		if p++; p == pe {
 			goto _test_eof57
 		}
 	st_case_57:
 		if data[p] == 32 {
-			goto tr71
+			goto st58
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr71
+			goto st58
 		}
 		goto st0
-tr71:
-//line trigger_parser.rl:48
- trigger.Deferrable = true 
-	goto st58
 	st58:
 		if p++; p == pe {
 			goto _test_eof58
 		}
 	st_case_58:
-//line trigger_parser.go:1337
-		switch data[p] {
-		case 32:
-			goto tr72
-		case 73:
-			goto st108
-		case 105:
-			goto st108
-		}
-		if 9 <= data[p] && data[p] <= 13 {
-			goto tr72
-		}
-		goto st0
-tr72:
-//line trigger_parser.rl:48
- trigger.Deferrable = true 
-	goto st59
-	st59:
-		if p++; p == pe {
-			goto _test_eof59
-		}
-	st_case_59:
-//line trigger_parser.go:1359
 		switch data[p] {
 		case 32:
-			goto tr72
+			goto st58
 		case 69:
 			goto st60
 		case 70:
@@ -1373,7 +1348,7 @@ tr72:
 			goto st108
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto tr72
+			goto st58
 		}
 		goto st0
 	st60:
@@ -3240,7 +3215,6 @@ tr195:
 	_test_eof56: cs = 56; goto _test_eof
 	_test_eof57: cs = 57; goto _test_eof
 	_test_eof58: cs = 58; goto _test_eof
-	_test_eof59: cs = 59; goto _test_eof
 	_test_eof60: cs = 60; goto _test_eof
 	_test_eof61: cs = 61; goto _test_eof
 	_test_eof62: cs = 62; goto _test_eof
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index 0922ff0..5a8b8d1 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -74,12 +74,12 @@ func ParseTrigger(data string) (*Trigger, error) {
 		   ( insert | update | delete | truncate )
 		)*
 		ws 'ON'i ws ( ident $ addToBuffer % setTable )
-		( ws ( 'NOT'i ws 'DEFERRABLE'i )
-		| ws ( 'DEFERRABLE'i ws @ matchDeferrable )?
-		  ( 'INITIALLY'i ws 'IMMEDIATE'i
-		  | 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
+		( ws 'NOT'i ws 'DEFERRABLE'i
+		| ( ws 'DEFERRABLE'i @ matchDeferrable )?
+		  ( ws 'INITIALLY'i ws 'IMMEDIATE'i
+		  | ws 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
 		  )?
-		)?
+		)
 		( ws 'FOR'i ws ('EACH'i ws)? ('ROW'i @ matchForEachRow | 'STATEMENT'i) )?
 		ws 'EXECUTE'i ws ('FUNCTION'i | 'PROCEDURE'i) ws ( ident $ addToBuffer % setFunction ) '()'
 		space*
-- 
2.43.0


From 32ca42bc177e69ecdce5959ba0d6bacf5d345f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 09/27] fix: collapse vertical tabs in definitions like other
 white space

---
 internal/ddl/parser_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 51cfee7..645b10b 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var whitespace = regexp.MustCompile(`\s+`)
+var whitespace = regexp.MustCompile(`[\s\v]+`)
 
 func collapseWhitespace(before string) string {
 	after := whitespace.ReplaceAllString(before, " ")
-- 
2.43.0


From 22acf9766ec42da535ee5f7a299ab54d55c55a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 10/27] fix: keep text inside a check expression from setting
 its attributes

---
 internal/ddl/check_parser.go | 6 ++++++
 internal/ddl/check_parser.rl | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 3feca15..8053633 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -274,12 +274,18 @@ tr9:
 //line check_parser.rl:22
 
 		mark2 = p
+		// what was matched so far is part of the expression
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 tr11:
 //line check_parser.rl:22
 
 		mark2 = p
+		// what was matched so far is part of the expression
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 	st56:
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 2be2560..b584ceb 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -21,6 +21,9 @@ func ParseCheck(data string) (*Check, error) {
 	}
 	action setMark2 {
 		mark2 = fpc
+		// what was matched so far is part of the expression
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	}
 
 	action matchDeferrable        { check.Deferrable = true }
-- 
2.43.0


From 2a3d23ec04490dcfb13956525a6a4c8f065f0c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 11/27] fix: point at the offending character of a definition
 that does not parse

---
 internal/ddl/check_parser.go       | 2 +-
 internal/ddl/check_parser.rl       | 2 +-
 internal/ddl/foreign_key_parser.go | 2 +-
 internal/ddl/foreign_key_parser.rl | 2 +-
 internal/ddl/index_parser.go       | 2 +-
 internal/ddl/index_parser.rl       | 2 +-
 internal/ddl/parser_utils.go       | 2 +-
 internal/ddl/trigger_parser.go     | 2 +-
 internal/ddl/trigger_parser.rl     | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 8053633..fab4daf 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -1120,7 +1120,7 @@ tr39:
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index b584ceb..4d09336 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -49,7 +49,7 @@ func ParseCheck(data string) (*Check, error) {
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 471e3d9..0aea5de 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -3975,7 +3975,7 @@ tr193:
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index 119b0e8..4b3ff23 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -83,7 +83,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.go b/internal/ddl/index_parser.go
index 3b6e1bc..4514246 100644
--- a/internal/ddl/index_parser.go
+++ b/internal/ddl/index_parser.go
@@ -1269,7 +1269,7 @@ tr64:
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.rl b/internal/ddl/index_parser.rl
index d6d98c5..f853b34 100644
--- a/internal/ddl/index_parser.rl
+++ b/internal/ddl/index_parser.rl
@@ -84,7 +84,7 @@ func ParseIndex(data string) (*Index, error) {
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 645b10b..7077a56 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -39,7 +39,7 @@ OUTER:
 		switch {
 		case idx == -1:
 			break OUTER
-		case idx > cs:
+		case idx >= cs:
 			data = data[:idx]
 			break OUTER
 		default:
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index 1df8a62..9d0dee0 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -3352,7 +3352,7 @@ tr195:
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index 5a8b8d1..27f8698 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -91,7 +91,7 @@ func ParseTrigger(data string) (*Trigger, error) {
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
-- 
2.43.0


From 592dd7036e2293460573369134a94ab664578cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 12/27] fix: report null targets and tasks of a runbook instead
 of panicking

---
 internal/runbook/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/parser/parser.go b/internal/runbook/parser/parser.go
index 0478b30..a13e0e6 100644
--- a/internal/runbook/parser/parser.go
+++ b/internal/runbook/parser/parser.go
@@ -82,6 +82,9 @@ func (p *Parser) Parse(filename string) (*types.Runbook, error) {
 
 func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 	for targetID, wrapper := range tmp.Targets {
+		if wrapper == nil {
+			return errors.New("invalid target")
+		}
 		factory, ok := p.Targets[wrapper.Class]
 		if !ok {
 			return errors.New("invalid target class")
@@ -107,6 +110,9 @@ func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 
 func (p *Parser) loadTasks(tmp *runbook, book *types.Runbook) error {
 	for taskID, task := range tmp.Tasks {
+		if task == nil {
+			return errors.New("invalid task")
+		}
 		targetID := task.Target
 		taskClass := ""
 		if idx := strings.Index(task.Target, "/"); idx != -1 {
-- 
2.43.0


From 46f6d5aa5932dcc915b22d689d07ee555c93850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 13/27] fix: write graphs whose names are unusual correctly and
 report failures

---
 internal/runbook/runbook.go | 53 ++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 41d2c94..0e59507 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -2,8 +2,10 @@ package runbook
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"path/filepath"
+	"strings"
 
 	dot "github.com/awalterschulze/gographviz"
 	"github.com/hokaccha/go-prettyjson"
@@ -56,30 +58,63 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		return err
 	}
 
-	g := dot.NewEscape()
+	g := dot.NewGraph()
 	g.SetDir(true)
 	g.SetName("runbook")
 	g.AddAttr("runbook", "newrank", "true")
 	if splines != "" {
-		g.AddAttr("runbook", "splines", splines)
+		g.AddAttr("runbook", "splines", dotID(splines))
 	}
 
 	for targetID := range runbook.Targets {
-		graphID := "cluster_" + targetID
+		graphID := dotClusterID(targetID)
 		g.AddSubGraph("runbook", graphID, nil)
-		g.AddAttr(graphID, "label", targetID)
+		g.AddAttr(graphID, "label", dotID(targetID))
 	}
 
 	for dstID, task := range runbook.Tasks {
-		graphID := "cluster_" + task.Target
-		g.AddNode(graphID, dstID, nil)
+		graphID := dotClusterID(task.Target)
+		g.AddNode(graphID, dotID(dstID), nil)
 		for _, srcID := range task.After {
-			g.AddEdge(srcID, dstID, true, nil)
+			if _, ok := runbook.Tasks[srcID]; !ok {
+				return fmt.Errorf("unknown task: %q", srcID)
+			}
+			g.AddEdge(dotID(srcID), dotID(dstID), true, nil)
 		}
 	}
 
-	w.Write([]byte(g.String()))
-	return nil
+	_, err = io.WriteString(w, g.String())
+	return err
+}
+
+// dotClusterID returns the ID of a target's cluster. It isn't
+// written like a task's ID, even if a task has the same name.
+func dotClusterID(targetID string) string {
+	return `"cluster_" + ` + dotQuote(targetID)
+}
+
+// dotID returns a task, target, or other name in the DOT language.
+func dotID(name string) string {
+	switch strings.ToLower(name) {
+	case "", "node", "edge", "graph", "digraph", "subgraph", "strict":
+		return dotQuote(name)
+	}
+	for i, c := range name {
+		switch {
+		case c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z':
+		case i > 0 && '0' <= c && c <= '9':
+		default:
+			return dotQuote(name)
+		}
+	}
+	return name
+}
+
+func dotQuote(name string) string {
+	name = strings.Replace(name, `\`, `\\`, -1)
+	name = strings.Replace(name, `"`, `\"`, -1)
+	name = strings.Replace(name, `&`, `&amp;`, -1)
+	return `"` + name + `"`
 }
 
 // Eval converts a runbook to JSON and pretty prints it
-- 
2.43.0


From d3deaa247b40fdfb5f85416620225cfcbb190f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 14/27] fix: never overwrite a runbook with its own graph

---
 internal/commands/base.go         | 26 +++++++++++++++++++++++++
 internal/commands/runbook_dot.go  | 15 +++++----------
 internal/commands/runbook_eval.go | 32 +++++++++++++------------------
 3 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/internal/commands/base.go b/internal/commands/base.go
index a32a803..42bb4c2 100644
--- a/internal/commands/base.go
+++ b/internal/commands/base.go
@@ -1,6 +1,8 @@
 package commands
 
 import (
+	"fmt"
+	"io"
 	"os"
 
 	"github.com/sjansen/pgutil/internal/sys"
@@ -13,3 +15,27 @@ type Base struct {
 	Debug     *os.File
 	Verbosity int
 }
+
+// writeOutput calls a function with the file it should write to. The
+// function's input is never replaced by its output.
+func (base *Base) writeOutput(output, input string, write func(w io.Writer) error) error {
+	if output == "-" {
+		return write(base.Stdout)
+	}
+
+	if dst, err := os.Stat(output); err == nil {
+		if src, err := os.Stat(input); err == nil && os.SameFile(src, dst) {
+			return fmt.Errorf("output would overwrite input: %q", output)
+		}
+	}
+
+	f, err := os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
+	if err != nil {
+		return err
+	}
+	err = write(f)
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	return err
+}
diff --git a/internal/commands/runbook_dot.go b/internal/commands/runbook_dot.go
index 4a4f9c7..6a251be 100644
--- a/internal/commands/runbook_dot.go
+++ b/internal/commands/runbook_dot.go
@@ -1,7 +1,7 @@
 package commands
 
 import (
-	"os"
+	"io"
 	"path/filepath"
 
 	"github.com/sjansen/pgutil/internal/runbook"
@@ -16,7 +16,7 @@ type RunBookDotCmd struct {
 }
 
 // Run executes the command
-func (c *RunBookDotCmd) Run(base *Base) (err error) {
+func (c *RunBookDotCmd) Run(base *Base) error {
 	output := "-"
 	switch {
 	case c.Output != "":
@@ -27,12 +27,7 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 		output = src[:len(src)-len(ext)] + ".dot"
 	}
 
-	w := base.Stdout
-	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
-	}
-	return runbook.Dot(&base.IO, c.File, w, c.Splines)
+	return base.writeOutput(output, c.File, func(w io.Writer) error {
+		return runbook.Dot(&base.IO, c.File, w, c.Splines)
+	})
 }
diff --git a/internal/commands/runbook_eval.go b/internal/commands/runbook_eval.go
index 0e04c2b..7f8a43f 100644
--- a/internal/commands/runbook_eval.go
+++ b/internal/commands/runbook_eval.go
@@ -1,7 +1,7 @@
 package commands
 
 import (
-	"os"
+	"io"
 
 	isatty "github.com/mattn/go-isatty"
 
@@ -16,28 +16,22 @@ type RunBookEvalCmd struct {
 }
 
 // Run executes the command
-func (c *RunBookEvalCmd) Run(base *Base) (err error) {
+func (c *RunBookEvalCmd) Run(base *Base) error {
 	output := "-"
 	if c.Output != "" {
 		output = c.Output
 	}
 
-	w := base.Stdout
-	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
+	return base.writeOutput(output, c.File, func(w io.Writer) error {
+		color := false
+		switch c.Color {
+		case "auto":
+			if x, ok := w.(interface{ Fd() uintptr }); ok {
+				color = isatty.IsTerminal(x.Fd())
+			}
+		case "true":
+			color = true
 		}
-	}
-
-	color := false
-	switch c.Color {
-	case "auto":
-		if x, ok := w.(interface{ Fd() uintptr }); ok {
-			color = isatty.IsTerminal(x.Fd())
-		}
-	case "true":
-		color = true
-	}
-	return runbook.Eval(&base.IO, c.File, w, color)
+		return runbook.Eval(&base.IO, c.File, w, color)
+	})
 }
-- 
2.43.0


From d5150a0d8bf5218e5ca61622f3ccec5af99f77ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 15/27] fix: escape the keys of an evaluated runbook

---
 internal/runbook/runbook.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 0e59507..3169fad 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -137,7 +137,7 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 
 	formatter := prettyjson.NewFormatter()
 	formatter.DisabledColor = !color
-	formatted, err := formatter.Marshal(unformatted)
+	formatted, err := formatter.Marshal(escapeKeys(unformatted))
 	if err != nil {
 		return err
 	}
@@ -146,6 +146,27 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 	return err
 }
 
+// escapeKeys prepares a value for prettyjson, which writes keys verbatim.
+func escapeKeys(value interface{}) interface{} {
+	switch v := value.(type) {
+	case []interface{}:
+		escaped := make([]interface{}, 0, len(v))
+		for _, e := range v {
+			escaped = append(escaped, escapeKeys(e))
+		}
+		return escaped
+	case map[string]interface{}:
+		escaped := make(map[string]interface{}, len(v))
+		for k, e := range v {
+			// a string always has a JSON representation
+			b, _ := json.Marshal(k)
+			escaped[string(b[1:len(b)-1])] = escapeKeys(e)
+		}
+		return escaped
+	}
+	return value
+}
+
 // List enumerates a runbook's tasks and their targets
 func List(sys *sys.IO, filename string) (map[TaskID]TargetID, error) {
 	p, err := newParser(sys, filepath.Dir(filename))
-- 
2.43.0


From b61e0052b8233b0ee7c5f67e9aa3e79b6cbaa480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 16/27] fix: answer every queued task of a task set and then
 shut down

RunTasks never closed its results when the queue was closed while it was idle,
leaked its goroutine, printed every task ID, ignored the concurrency limit and
stopped reading the queue while a result was waiting to be received.
---
 internal/taskset/base/base.go | 50 +++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 406910e..f848fcd 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -1,8 +1,6 @@
 package base
 
 import (
-	"fmt"
-
 	"github.com/sjansen/pgutil/internal/taskset/types"
 )
 
@@ -25,9 +23,21 @@ func (t *Task) Provides() []string {
 	return t.Provide
 }
 
+// RunTask starts a task and sends its result, exactly once, when the task ends
 type RunTask func(types.TaskID, types.Task, chan<- types.TaskResults)
 
+type pendingTask struct {
+	id   types.TaskID
+	task types.Task
+}
+
+// RunTasks starts a goroutine which passes each queued task to fn, so that at most
+// maxConcurrency tasks are running, and delivers their results. Once the queue is
+// closed and everything has been delivered the results are closed.
 func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan types.TaskResults) {
+	if maxConcurrency < 1 {
+		maxConcurrency = 1
+	}
 	queue := make(chan types.TaskBatch, maxConcurrency)
 	results := make(chan types.TaskResults, maxConcurrency)
 
@@ -35,32 +45,38 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 		relay := make(chan types.TaskResults)
 		running := 0
 
-		for {
+		var pending []pendingTask
+		var finished []types.TaskResults
+		for queue != nil || running+len(pending)+len(finished) > 0 {
+			for len(pending) > 0 && running < maxConcurrency {
+				fn(pending[0].id, pending[0].task, relay)
+				pending = pending[1:]
+				running++
+			}
+
+			var deliver chan<- types.TaskResults
+			var next types.TaskResults
+			if len(finished) > 0 {
+				deliver, next = results, finished[0]
+			}
+
 			select {
 			case tasks, ok := <-queue:
 				if ok {
 					for id, task := range tasks {
-						fmt.Println(id)
-						fn(id, task, relay)
-						running++
+						pending = append(pending, pendingTask{id, task})
 					}
 				} else {
-					goto shutdown
+					queue = nil
 				}
 			case result := <-relay:
-				results <- result
+				finished = append(finished, result)
 				running--
+			case deliver <- next:
+				finished = finished[1:]
 			}
 		}
-	shutdown:
-		for result := range relay {
-			results <- result
-			running--
-			if running < 1 {
-				close(relay)
-				close(results)
-			}
-		}
+		close(results)
 	}(queue, results)
 
 	return queue, results
-- 
2.43.0


From 2bf2250ad85bb8d41b1cdcb8c6f929a7b7c1ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 17/27] fix: keep the dependencies and resources of a task
 set's tasks

The parser decoded after, provides and requires and then dropped them, so that
every task looked independent. Targets and tasks declared twice silently replaced
each other.
---
 internal/taskset/base/base.go     | 14 +++++++++++---
 internal/taskset/parser/parser.go | 21 ++++++++++++++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index f848fcd..4a9b45f 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -6,9 +6,17 @@ import (
 
 type Task struct {
 	Target  string
-	After   []string `hcl:"after,optional"`
-	Provide []string `hcl:"provide,optional"`
-	Require []string `hcl:"require,optional"`
+	After   []string
+	Provide []string
+	Require []string
+}
+
+// Bind records what is declared about a task of any class.
+func (t *Task) Bind(target string, after, provide, require []string) {
+	t.Target = target
+	t.After = after
+	t.Provide = provide
+	t.Require = require
 }
 
 func (t *Task) Dependencies() []string {
diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index 593b6b2..e89b23c 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -35,6 +35,11 @@ type task struct {
 	Config hcl.Body `hcl:",remain"`
 }
 
+// binder is implemented by tasks which embed base.Task
+type binder interface {
+	Bind(target string, after, provide, require []string)
+}
+
 // Parser registers available targets and tasks
 type Parser struct {
 	Targets map[string]types.TargetFactory
@@ -86,11 +91,17 @@ func (p *Parser) loadDefaultTargets(ts *types.TaskSet) error {
 }
 
 func (p *Parser) loadExplicitTargets(raw *taskSet, ts *types.TaskSet) error {
+	type key struct{ typ, id string }
+	declared := map[key]bool{}
 	for _, t := range raw.Targets {
 		factory, ok := p.Targets[t.Type]
 		if !ok {
 			return errors.New("invalid target type")
 		}
+		if declared[key{t.Type, t.ID}] {
+			return errors.New("duplicate target")
+		}
+		declared[key{t.Type, t.ID}] = true
 		target := factory.NewTarget()
 		err := gohcl.DecodeBody(t.Config, nil, target)
 		if err != nil {
@@ -119,6 +130,11 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			return errors.New("invalid target")
 		}
 
+		id := types.TaskID(t.ID)
+		if _, ok := ts.Tasks[id]; ok {
+			return errors.New("duplicate task")
+		}
+
 		task, err := target.NewTask(taskType)
 		if err != nil {
 			return err
@@ -129,7 +145,10 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			return diag
 		}
 
-		ts.Tasks[types.TaskID(t.ID)] = task
+		if x, ok := task.(binder); ok {
+			x.Bind(t.Target, t.After, t.Provide, t.Require)
+		}
+		ts.Tasks[id] = task
 	}
 	return nil
 }
-- 
2.43.0


From 7ae4b505a17fa722dbac5e52d6e9fc83d2ebd9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 18/27] fix: generate valid CREATE TABLE for tables with checks
 but no columns

---
 internal/ddl/table.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/table.go b/internal/ddl/table.go
index 3c0aef3..4fecfa9 100644
--- a/internal/ddl/table.go
+++ b/internal/ddl/table.go
@@ -48,8 +48,13 @@ func (t *Table) ToSQL() (string, error) {
 		}
 		sb.WriteString("\n")
 	}
-	for _, check := range t.Checks {
-		sb.WriteString(", CHECK(")
+	for i, check := range t.Checks {
+		if i < 1 && len(t.Columns) < 1 {
+			sb.WriteString("  ")
+		} else {
+			sb.WriteString(", ")
+		}
+		sb.WriteString("CHECK(")
 		sb.WriteString(check.Expression)
 		sb.WriteString(")\n")
 	}
-- 
2.43.0


From 8db32bdf564bf98a1b2e994cdfe9493b1da73d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 19/27] fix: quote function bodies and languages so that they
 cannot end early

---
 internal/ddl/function.go | 12 ++++++++----
 internal/ddl/util.go     | 13 +++++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/ddl/function.go b/internal/ddl/function.go
index b609e3f..22c7da6 100644
--- a/internal/ddl/function.go
+++ b/internal/ddl/function.go
@@ -16,15 +16,19 @@ type Function struct {
 
 func (f *Function) ToSQL() (string, error) {
 	var sb strings.Builder
+	quote := dollarQuote("\n" + f.Definition)
 	sb.WriteString("CREATE OR REPLACE FUNCTION ")
 	sb.WriteString(f.Name)
 	sb.WriteString("()\n")
 	sb.WriteString("RETURNS ")
 	sb.WriteString(f.Returns)
-	sb.WriteString(" AS $$\n")
+	sb.WriteString(" AS ")
+	sb.WriteString(quote)
+	sb.WriteString("\n")
 	sb.WriteString(f.Definition)
-	sb.WriteString("$$ LANGUAGE '")
-	sb.WriteString(f.Language)
-	sb.WriteString("'\n;\n")
+	sb.WriteString(quote)
+	sb.WriteString(" LANGUAGE ")
+	sb.WriteString(quoteLiteral(f.Language))
+	sb.WriteString("\n;\n")
 	return sb.String(), nil
 }
diff --git a/internal/ddl/util.go b/internal/ddl/util.go
index 0fe6ee6..4c8715e 100644
--- a/internal/ddl/util.go
+++ b/internal/ddl/util.go
@@ -2,6 +2,19 @@ package ddl
 
 import "strings"
 
+// dollarQuote returns a dollar quote that does not end early within s
+func dollarQuote(s string) string {
+	quote := "$$"
+	for tag := "q"; strings.Index(s+quote, quote) < len(s); tag += "q" {
+		quote = "$" + tag + "$"
+	}
+	return quote
+}
+
+func quoteLiteral(s string) string {
+	return "'" + strings.Replace(s, "'", "''", -1) + "'"
+}
+
 func quoteName(s string) string {
 	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
 }
-- 
2.43.0


From 610990cb8b90c482e25ae528c45e4c9bb58e25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 20/27] fix: generate triggers with all their events and
 attributes

---
 internal/ddl/trigger.go | 43 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/internal/ddl/trigger.go b/internal/ddl/trigger.go
index 7a8d4c1..c22dca1 100644
--- a/internal/ddl/trigger.go
+++ b/internal/ddl/trigger.go
@@ -45,17 +45,52 @@ func (t *Trigger) setWhen(s string) {
 	)
 }
 
+func (t *Trigger) events() []string {
+	var events []string
+	if t.Insert {
+		events = append(events, "INSERT")
+	}
+	if t.Update {
+		update := "UPDATE"
+		for i, column := range t.Columns {
+			if i < 1 {
+				update += " OF "
+			} else {
+				update += ", "
+			}
+			update += quoteName(column)
+		}
+		events = append(events, update)
+	}
+	if t.Delete {
+		events = append(events, "DELETE")
+	}
+	if t.Truncate {
+		events = append(events, "TRUNCATE")
+	}
+	return events
+}
+
 func (t *Trigger) ToSQL() (string, error) {
 	var sb strings.Builder
-	sb.WriteString("CREATE TRIGGER ")
+	sb.WriteString("CREATE ")
+	if t.Constraint {
+		sb.WriteString("CONSTRAINT ")
+	}
+	sb.WriteString("TRIGGER ")
 	sb.WriteString(quoteName(t.Name))
 	sb.WriteString("\n  ")
 	sb.WriteString(t.When)
-	if t.Update {
-		sb.WriteString(" UPDATE")
-	}
+	sb.WriteString(" ")
+	sb.WriteString(strings.Join(t.events(), " OR "))
 	sb.WriteString(" ON ")
 	sb.WriteString(quoteName(t.Table))
+	if t.Deferrable {
+		sb.WriteString("\n  DEFERRABLE")
+	}
+	if t.InitiallyDeferred {
+		sb.WriteString("\n  INITIALLY DEFERRED")
+	}
 	if t.ForEachRow {
 		sb.WriteString("\n  FOR EACH ROW")
 	}
-- 
2.43.0


From 093850827391b3ce0aec2edad600d47c70f63b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 21/27] fix: accept every PostgreSQL spelling of boolean
 storage parameters

---
 internal/ddl/table_storage_parameters.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index b3c9bc9..1824471 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -1,6 +1,10 @@
 package ddl
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+	"strings"
+)
 
 // TableStorageParameters influence how table data is stored and maintained
 type TableStorageParameters struct {
@@ -34,7 +38,7 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.ParallelWorkers = &tmp
 		return err
 	case "autovacuum_enabled":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.AutovacuumEnabled = &tmp
 		return err
 	case "autovacuum_vacuum_threshold":
@@ -86,9 +90,23 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.LogAutovacuumMinDuration = &tmp
 		return err
 	case "user_catalog_table":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.UserCatalogTable = &tmp
 		return err
 	}
 	return nil
 }
+
+// parseBool accepts any spelling of a boolean that PostgreSQL does
+func parseBool(value string) (bool, error) {
+	s := strings.ToLower(value)
+	switch {
+	case s == "":
+		break
+	case s == "1" || s == "on" || strings.HasPrefix("true", s) || strings.HasPrefix("yes", s):
+		return true, nil
+	case s == "0" || s == "of" || s == "off" || strings.HasPrefix("false", s) || strings.HasPrefix("no", s):
+		return false, nil
+	}
+	return false, errors.New("invalid boolean: " + strconv.Quote(value))
+}
-- 
2.43.0


From 48df4c88c4f6a0720a6beacf9e9a81c129c4a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 22/27] fix: stop connecting at the first success and let
 pauses between retries grow

---
 internal/pg/pg.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f42475f..a40ba6c 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -60,16 +60,15 @@ func New(o *Options) (*Conn, error) {
 
 	delay := 100 * time.Millisecond
 	var conn *pgx.Conn
-	for retries := 0; retries <= o.ConnectRetries; retries++ {
+	for retries := 0; ; retries++ {
 		conn, err = pgx.Connect(cfg)
-		if err != nil {
-			if retries < o.ConnectRetries {
-				time.Sleep(delay)
-				delay = time.Duration(2^retries) * 100 * time.Millisecond
-			} else {
-				return nil, err
-			}
+		if err == nil {
+			break
+		} else if retries >= o.ConnectRetries {
+			return nil, err
 		}
+		time.Sleep(delay)
+		delay *= 2
 	}
 
 	c := &Conn{
-- 
2.43.0


From 0889d4f58f8def4bc60b81c2ab33659cd0779b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 23/27] fix: verify the certificate for the host that is
 connected to

---
 internal/pg/pg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index a40ba6c..eef71c5 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -52,6 +52,8 @@ func New(o *Options) (*Conn, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else if cfg.TLSConfig != nil && !cfg.TLSConfig.InsecureSkipVerify {
+		cfg.TLSConfig.ServerName = cfg.Host
 	}
 
 	cfg.Logger = zapadapter.NewLogger(
-- 
2.43.0


From 930b4ab491fff1ba85a1bf4a8bd531427bdf9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 24/27] fix: report failures while reading the results of
 catalog queries

---
 internal/pg/check.go                    | 3 +++
 internal/pg/columns.go                  | 3 +++
 internal/pg/foreign_key.go              | 3 +++
 internal/pg/functions.go                | 3 +++
 internal/pg/index.go                    | 3 +++
 internal/pg/schemas.go                  | 3 +++
 internal/pg/sequence.go                 | 6 ++++++
 internal/pg/table_storage_parameters.go | 3 +++
 internal/pg/tables.go                   | 3 +++
 internal/pg/triggers.go                 | 3 +++
 10 files changed, 33 insertions(+)

diff --git a/internal/pg/check.go b/internal/pg/check.go
index d5fd7d1..ed3d7e7 100644
--- a/internal/pg/check.go
+++ b/internal/pg/check.go
@@ -46,6 +46,9 @@ func (c *Conn) ListChecks(schema, table string) ([]*ddl.Check, error) {
 		check.Name = name
 		checks = append(checks, check)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/columns.go b/internal/pg/columns.go
index 81e3ada..bb3f0a2 100644
--- a/internal/pg/columns.go
+++ b/internal/pg/columns.go
@@ -52,6 +52,9 @@ func (c *Conn) ListColumns(schema, table string) ([]*ddl.Column, error) {
 		c.log.Debugw("row scanned", "column", col.Name, "type", col.Type)
 		columns = append(columns, col)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/foreign_key.go b/internal/pg/foreign_key.go
index 03f76d8..d232ff7 100644
--- a/internal/pg/foreign_key.go
+++ b/internal/pg/foreign_key.go
@@ -48,6 +48,9 @@ func (c *Conn) ListForeignKeys(schema, table string) ([]*ddl.ForeignKey, error)
 		fk.Name = name
 		fks = append(fks, fk)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/functions.go b/internal/pg/functions.go
index c452dcc..4d955a7 100644
--- a/internal/pg/functions.go
+++ b/internal/pg/functions.go
@@ -109,6 +109,9 @@ func (c *Conn) ListFunctions() ([]*ddl.Function, error) {
 		c.log.Debugw("scanned", "function", function)
 		functions = append(functions, function)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/index.go b/internal/pg/index.go
index 18752e0..d913353 100644
--- a/internal/pg/index.go
+++ b/internal/pg/index.go
@@ -53,6 +53,9 @@ func (c *Conn) ListIndexes(schema, table string) ([]*ddl.Index, error) {
 		index.Primary = isPrimary
 		indexes = append(indexes, index)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/schemas.go b/internal/pg/schemas.go
index 7e6a3b0..9d0f9ae 100644
--- a/internal/pg/schemas.go
+++ b/internal/pg/schemas.go
@@ -41,6 +41,9 @@ func (c *Conn) ListSchemas() ([]*ddl.Schema, error) {
 		c.log.Debugw("row scanned", "schema", schema)
 		schemas = append(schemas, schema)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index ba46fd7..bbc1fef 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -152,6 +152,9 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -198,6 +201,9 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/table_storage_parameters.go b/internal/pg/table_storage_parameters.go
index cbc4d7e..51941e0 100644
--- a/internal/pg/table_storage_parameters.go
+++ b/internal/pg/table_storage_parameters.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTableStorageParameters(schema, table string) (*ddl.TableStora
 			return nil, err
 		}
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/tables.go b/internal/pg/tables.go
index e3084b8..022f579 100644
--- a/internal/pg/tables.go
+++ b/internal/pg/tables.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTables() ([]*ddl.Table, error) {
 		c.log.Debugw("row scanned", "table", table)
 		tables = append(tables, table)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/triggers.go b/internal/pg/triggers.go
index 492f7a7..6e80ecf 100644
--- a/internal/pg/triggers.go
+++ b/internal/pg/triggers.go
@@ -89,6 +89,9 @@ func (c *Conn) ListTriggers(schema, table string) ([]*ddl.Trigger, error) {
 		trigger.Schema = schema
 		triggers = append(triggers, trigger)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 268496719d8f72a1379e1046db0180bbfde2044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 25/27] fix: sort check constraints before they are added to
 their table

---
 internal/pg/inspect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 028722b..9803a5d 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -87,14 +87,14 @@ func (c *Conn) inspectTable(o *InspectOptions, db *ddl.Database, table *ddl.Tabl
 	if err != nil {
 		return err
 	}
-	if len(checks) > 0 {
-		table.Checks = append(table.Checks, checks...)
-	}
 	if o.SortChecks {
 		sort.Slice(checks, func(i, j int) bool {
 			return (checks[i].Expression < checks[j].Expression)
 		})
 	}
+	if len(checks) > 0 {
+		table.Checks = append(table.Checks, checks...)
+	}
 
 	fks, err := c.ListForeignKeys(table.Schema, table.Name)
 	if err != nil {
-- 
2.43.0


From 39f6b08e1f5ca0ca0ad3bfa993d5bae98d81cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 26/27] fix: sort indexes by schema, then table, then name

---
 internal/pg/inspect.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 9803a5d..a9a6fb9 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -61,10 +61,13 @@ func (c *Conn) inspectTables(o *InspectOptions, db *ddl.Database) (err error) {
 	if o.SortIndexes {
 		indexes := db.Indexes
 		sort.Slice(indexes, func(i, j int) bool {
-			return (indexes[i].Schema < indexes[j].Schema &&
-				indexes[i].Table < indexes[j].Table &&
-				indexes[i].Name < indexes[j].Name)
-
+			if indexes[i].Schema != indexes[j].Schema {
+				return indexes[i].Schema < indexes[j].Schema
+			}
+			if indexes[i].Table != indexes[j].Table {
+				return indexes[i].Table < indexes[j].Table
+			}
+			return indexes[i].Name < indexes[j].Name
 		})
 	}
 
-- 
2.43.0


From 59857ba315bddcc73e2288642c5448ad0bac6973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 27/27] fix: write the version command's module list to its own
 output

---
 internal/commands/version.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/commands/version.go b/internal/commands/version.go
index 50b1b1e..0aa7c03 100644
--- a/internal/commands/version.go
+++ b/internal/commands/version.go
@@ -20,9 +20,9 @@ type VersionCmd struct {
 func (c *VersionCmd) Run(base *Base) error {
 	fmt.Fprintln(base.Stdout, c.App, c.Build)
 	if c.Verbose && c.BuildInfo != nil {
-		fmt.Println("")
+		fmt.Fprintln(base.Stdout)
 		for _, m := range c.BuildInfo.Deps {
-			fmt.Printf("%-40s %-35s\n", m.Path, m.Version)
+			fmt.Fprintf(base.Stdout, "%-40s %-35s\n", m.Path, m.Version)
 		}
 	}
 	return nil
-- 
2.43.0

