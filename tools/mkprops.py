#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "A task is released only after all its prerequisites, exactly once",
 "For every acyclic set of tasks and every order in which released tasks are reported complete, the dependency graph releases each task at most once, and never before every task it depends on has been reported complete.",
 ["inputs", "histories"], "every acyclic dependency relation over the task names, any duplicate or repeated dependency entries, every completion order and every map iteration order",
 "The tests walk one five-node graph in one completion order; the guarantee is over all graphs, completion orders and map iteration orders.",
 ["internal/dag/dependency.go", "internal/dag/tsort.go", "internal/dag/directed.go"],
 [("DependencyGraph.Next", "internal/dag/dependency.go"), ("NewDependencyGraph", "internal/dag/dependency.go")],
 [dict(name="dependencies/dependents", meaning="unfinished prerequisites per task and its inverse", where="internal/dag/dependency.go"),
  dict(name="pending", meaning="tasks not yet released, in topological order", where="internal/dag/dependency.go")],
 ["dag.NewDependencyGraph", "(*dag.DependencyGraph).Next"])

prop("C02", "The dependency graph releases every task as soon as it can start",
 "After each reported completion (and at the start), the dependency graph releases every not yet released task whose prerequisites have all been reported complete; so reporting released tasks as complete eventually releases all tasks, and the graph reports pending tasks exactly while some task has not been released.",
 ["inputs", "histories"], "every acyclic dependency relation and every completion order",
 "The single graph in the tests never has two tasks in a row become ready behind a blocked one.",
 ["internal/dag/dependency.go"],
 [("DependencyGraph.Next", "internal/dag/dependency.go"), ("DependencyGraph.HasPending", "internal/dag/dependency.go")],
 observe=["(*dag.DependencyGraph).Next", "(*dag.DependencyGraph).HasPending"])

prop("C03", "Invalid dependency graphs are rejected with a genuine witness",
 "Building a dependency graph fails exactly when some task depends on an unknown task or the dependencies contain a cycle; the error then names an existing reference to an unknown task, or lists tasks that really form a cycle. For an acyclic graph the topological sort lists every node exactly once with each node's dependencies before it, and the same graph always gives the same result.",
 ["inputs"], "every dependency relation (cyclic, self-referential, dangling, duplicated) over the node names and every map iteration order",
 "Only a handful of hand-picked graphs are sorted; the cycle bookkeeping depends on shape and visit order.",
 ["internal/dag/tsort.go", "internal/dag/directed.go", "internal/dag/dependency.go", "internal/dag/errors.go"],
 [("TSort", "internal/dag/tsort.go"), ("NewDirectedGraph", "internal/dag/directed.go")],
 observe=["dag.NewDependencyGraph", "dag.TSort"])

prop("C04", "Directed graph edits keep nodes and edges consistent",
 "After any sequence of adding edges, removing edges and removing nodes, a directed graph contains exactly the nodes and edges those edits imply: adding an edge adds both end points, removing an edge removes only that edge, removing a node removes it and every edge into or out of it, and the out-degree of a node is the number of distinct edges leaving it.",
 ["inputs", "histories"], "every sequence of edits with arbitrary node names",
 "The tests run one fixed sequence of edits.",
 ["internal/dag/directed.go", "internal/dag/nodeset.go"],
 [("DirectedGraph", "internal/dag/directed.go"), ("NodeSet", "internal/dag/nodeset.go")],
 observe=["(*dag.DirectedGraph).AddEdge/AddEdges/RemoveEdge/RemoveNode/HasNode/OutDegree"])

prop("C05", "The scheduler never exceeds a target's concurrency limit or a dependency",
 "For every set of targets, tasks and dependencies and every completion order, the scheduler hands each task out at most once, only to the target the task names, only after everything the task depends on has completed, and never so that more tasks are outstanding on a target than its concurrency limit.",
 ["inputs", "histories"], "every assignment of tasks to targets, limits, dependency relation and completion order",
 "Tests replay one 13-task schedule with one completion order.",
 ["internal/runbook/scheduler/scheduler.go", "internal/dag/dependency.go"],
 [("Scheduler.Next/buildReady", "internal/runbook/scheduler/scheduler.go")],
 [dict(name="targetLen/targetCap/pending", meaning="outstanding tasks, limit and queue per target", where="internal/runbook/scheduler/scheduler.go")],
 ["scheduler.New", "(*scheduler.Scheduler).Next"])

prop("C06", "The scheduler uses free capacity at once and hands out every task",
 "After every step of the scheduler no task whose prerequisites are complete is left waiting while its target has free capacity; every task is eventually handed out, and the scheduler reports that nothing is left to schedule exactly when every task has already been handed out.",
 ["inputs", "histories"], "every assignment of tasks to targets with limits of at least one, dependency relation and completion order",
 "Starvation or a lost task needs a specific combination of full targets, several tasks becoming ready together and completion order.",
 ["internal/runbook/scheduler/scheduler.go", "internal/dag/dependency.go"],
 [("Scheduler.buildReady/noPendingTasks", "internal/runbook/scheduler/scheduler.go")],
 observe=["scheduler.New", "(*scheduler.Scheduler).Next"])

prop("C07", "A runbook whose tasks succeed runs every task once, in order, and ends",
 "Running a valid runbook whose targets start and whose tasks all succeed always ends (also when it has no tasks), reports success, and has executed every task exactly once on the target it names, each after all tasks it depends on have finished; every target is started before its first task and stopped once after its last, and no goroutine is left behind.",
 ["inputs", "schedules"], "every small runbook and every interleaving of the scheduler, router, target and main goroutines",
 "The goroutine interleavings are not controlled by the tests, and only a few runbooks are run.",
 ["internal/runbook/runner.go", "internal/runbook/runbook.go", "internal/runbook/scheduler/scheduler.go"],
 [("runner.run/startScheduler/startTargets", "internal/runbook/runner.go")],
 [dict(name="ready/ended/done channels", meaning="hand-over between scheduler, router, targets and main loop", where="internal/runbook/runner.go")],
 ["runbook.Run"])

prop("C08", "A failing task stops its dependents, is reported, and the run still ends",
 "If a task fails while a runbook runs, the run returns an error produced by a failed task, nothing that depends on it directly or indirectly is ever executed, no task is executed twice or concurrently with or before its dependencies, every started target is stopped, and the run always ends with no goroutine left blocked.",
 ["inputs", "schedules", "fault_sequences"], "every small runbook, every set of failing tasks and every interleaving",
 "One failing runbook is run once; the shutdown hand-shake depends on which goroutine is blocked where when the failure arrives.",
 ["internal/runbook/runner.go", "internal/runbook/scheduler/scheduler.go"],
 [("runner.run, startTargetGoroutine", "internal/runbook/runner.go")],
 observe=["runbook.Run", "types.Target.Handle/Stop"])

prop("C09", "A runbook that cannot be scheduled or started fails without doing work",
 "Running a runbook whose dependencies contain a cycle or name an unknown task returns an error and executes no task; if a target fails to start, the run returns the error of a target that failed to start. In each case no task is executed, every target that was started is stopped, and nothing is left blocked.",
 ["inputs", "schedules", "fault_sequences"], "every small runbook with a dependency error or a start failure at any target, and every interleaving",
 "No test runs a runbook with a dependency error or a failing start.",
 ["internal/runbook/runner.go", "internal/runbook/scheduler/scheduler.go", "internal/dag/dependency.go"],
 [("runner.startScheduler/startTargets", "internal/runbook/runner.go")],
 observe=["runbook.Run"])

prop("C10", "Loading a runbook validates every target and task or reports an error",
 "For every evaluated runbook document, loading either returns an error or a runbook in which each declared target and task appears under its own name, each target has the declared class and passed its validation, and each task has its declared message and prerequisites, refers to a declared target and carries a configuration of the class named after the slash that passed its check; every document whose targets and tasks are all valid in this sense and have only known fields loads; loading never panics.",
 ["inputs"], "every decoded document: any target and task names and classes, missing or null entries, any slash position, any failing decode, analysis or check",
 "The tests load one valid and seven broken documents.",
 ["internal/runbook/parser/parser.go"],
 [("Parser.loadTargets/loadTasks", "internal/runbook/parser/parser.go")],
 observe=["(*parser.Parser).Parse"])

prop("C11", "Environment filtering is exact: allow, deny and set are honoured",
 "For every environment and filter, the filtered environment contains each variable in the set list exactly with its configured value and no other value, keeps every other variable unchanged and in order if it is in the allow list (when there is one), or is not in the deny list (when there is no allow list), or unconditionally (when there is neither), and contains nothing else.",
 ["inputs"], "all environments (any strings, with or without '='), allow, deny and set lists",
 "Six fixed cases are tested; leaks of a denied variable need particular combinations.",
 ["internal/runbook/sh/env.go"],
 [("Env.Apply", "internal/runbook/sh/env.go")], observe=["(*sh.Env).Apply"])

prop("C12", "A shell task runs exactly the configured command, confined to its environment",
 "A shell task is accepted exactly when it has a command that contains no slash or starts with '/', './' or '../'; executing it runs that command with exactly the configured arguments in the runbook's directory, with an environment that is the process environment filtered by the target's and then by the task's filter and nothing else, writes to the configured output streams, and reports failure exactly when the command fails.",
 ["inputs", "configurations"], "all argument lists, filters, environments, base directories and command outcomes",
 "Tests run three commands without filters and check five command names.",
 ["internal/runbook/sh/exec.go", "internal/runbook/sh/sh.go", "internal/runbook/sh/env.go"],
 [("Exec.exec, Exec.Check, validateArg0", "internal/runbook/sh/exec.go"), ("Target.Start", "internal/runbook/sh/sh.go")],
 observe=["(*sh.Target).Handle", "(*sh.Exec).Check"])

prop("C13", "Demo text tasks are exact: reversal and ROT13 are involutions",
 "For every valid UTF-8 string, the reverse task leaves exactly the reversed sequence of characters and ROT13 rotates exactly the ASCII letters by 13 preserving case and leaves everything else alone, so applying either twice restores the string; echo prints the current string and a newline and changes nothing, the fail task always fails and changes nothing, in both the runbook and the task-set variant.",
 ["inputs"], "all valid UTF-8 strings",
 "One ASCII string is tested.",
 ["internal/runbook/demo/tasks.go", "internal/taskset/demo/rev.go", "internal/taskset/demo/rot13.go", "internal/taskset/demo/echo.go"],
 [("Rev.munge, Rot13.munge", "internal/runbook/demo/tasks.go")], observe=["(*demo.Target).Handle"])

prop("C14", "Runbook listing and graph output are complete and exact",
 "Listing a runbook reports exactly its tasks, each with the target it names, in sorted order. The graph output of a runbook is a well-formed DOT graph, whatever the names, that contains every target as a cluster labelled with its name, every task as a node of its target's cluster, and exactly one edge from each prerequisite to its dependent, and nothing else; a failure to write it is reported.",
 ["inputs", "fault_sequences"], "all runbooks and write failures",
 "One runbook's output is checked.",
 ["internal/runbook/runbook.go", "internal/commands/runbook_list.go"],
 [("Dot, List", "internal/runbook/runbook.go"), ("RunBookListCmd.Run", "internal/commands/runbook_list.go")],
 observe=["runbook.Dot", "runbook.List", "commands.RunBookListCmd.Run"])

prop("C15", "Trigger definitions are parsed exactly",
 "Every trigger definition of the supported grammar, in any letter case and with any white space between tokens, is accepted, and the result carries exactly its name, table, function, timing (upper-cased, single-spaced), events, column list, constraint, deferrable, initially-deferred and row/statement attributes.",
 ["inputs"], "every statement of the supported CREATE TRIGGER grammar: all identifiers, spellings, white space and combinations of clauses",
 "Six statements are tested; the parser is a generated state machine with about two hundred states.",
 ["internal/ddl/trigger_parser.go", "internal/ddl/trigger.go", "internal/ddl/parser_utils.go"],
 [("ParseTrigger", "internal/ddl/trigger_parser.go")], observe=["ddl.ParseTrigger"])

prop("C16", "Index definitions are parsed exactly",
 "Every index definition of the supported grammar, in any letter case and with any white space between tokens, is accepted, and the result carries exactly its name, table, access method, uniqueness, the keys in order (column or expression, each with its own operator class) and the trimmed, white-space-collapsed predicate.",
 ["inputs"], "every statement of the supported CREATE INDEX grammar",
 "Seven statements are tested.",
 ["internal/ddl/index_parser.go", "internal/ddl/index.go", "internal/ddl/parser_utils.go"],
 [("ParseIndex", "internal/ddl/index_parser.go")], observe=["ddl.ParseIndex"])

prop("C17", "Foreign key definitions are parsed exactly",
 "Every foreign key definition of the supported grammar, in any letter case and with any white space between tokens, is accepted, and the result carries exactly its columns, referenced table and columns in order, match type and delete/update actions (upper-cased, single-spaced), and the deferrable and initially-deferred attributes.",
 ["inputs"], "every statement of the supported FOREIGN KEY grammar",
 "Three statements are tested; the state machine has about two hundred states.",
 ["internal/ddl/foreign_key_parser.go", "internal/ddl/foreign_key.go", "internal/ddl/parser_utils.go"],
 [("ParseForeignKey", "internal/ddl/foreign_key_parser.go")], observe=["ddl.ParseForeignKey"])

prop("C18", "Check constraints are parsed exactly",
 "For every check constraint definition 'CHECK (expression)' with optional deferral clauses, in any letter case and white space, the result carries exactly the text between the first and the matching last parenthesis, trimmed, and the deferral attributes written after it; text inside the expression never influences the attributes.",
 ["inputs"], "every expression text, including ones that contain parentheses and deferral key words",
 "Four statements are tested.",
 ["internal/ddl/check_parser.go", "internal/ddl/check.go"],
 [("ParseCheck", "internal/ddl/check_parser.go")], observe=["ddl.ParseCheck"])

prop("C19", "Definition parsers are total and accept nothing outside their grammar",
 "For every byte string each of the four definition parsers returns, without panicking, either a result and no error or no result and an error; it returns a result only for strings of its documented grammar, and rendering the error as text never fails and shows the line and column of the first character at which no definition can continue, or that the text ended too early.",
 ["inputs"], "every byte string (bounded length, arbitrary bytes at arbitrary positions of a statement)",
 "No malformed statement is tested at all.",
 ["internal/ddl/trigger_parser.go", "internal/ddl/index_parser.go", "internal/ddl/foreign_key_parser.go", "internal/ddl/check_parser.go", "internal/ddl/parser_utils.go"],
 [("generated state machines", "internal/ddl/*_parser.go"), ("parseError.Error", "internal/ddl/parser_utils.go")],
 observe=["ddl.ParseTrigger", "ddl.ParseIndex", "ddl.ParseForeignKey", "ddl.ParseCheck"])

prop("C20", "Names in generated SQL are always quoted injectively",
 "In SQL generated for tables, primary keys and triggers, and in every quoted identifier, each name appears as one double-quoted identifier that decodes to exactly that name whatever characters a PostgreSQL name can contain (any but NUL), so no name can end its quotes or change the rest of the statement.",
 ["inputs"], "all NUL-free names, including quotes, backslashes, white space and non-ASCII bytes",
 "Tests use plain names only.",
 ["internal/ddl/util.go", "internal/ddl/table.go", "internal/ddl/index.go", "internal/ddl/trigger.go", "internal/pg/util.go"],
 [("quoteName", "internal/ddl/util.go"), ("Identifier", "internal/pg/util.go")],
 observe=["(*ddl.Table).ToSQL", "(*ddl.Index).ToSQL", "(*ddl.Trigger).ToSQL", "pg.Identifier"])

prop("C21", "Generated CREATE TABLE statements carry every column and check",
 "The SQL generated for a table lists exactly its columns in order with their types, NOT NULL exactly for the columns that have it and DEFAULT exactly for the columns with a default value, followed by exactly its check expressions in order; the SQL for a primary key lists exactly its key columns in order, and the SQL for a function carries its name, return type, body (after a line break) and language unchanged, whatever body and language contain.",
 ["inputs"], "all tables, primary keys and functions",
 "One table, one key and one function are tested.",
 ["internal/ddl/table.go", "internal/ddl/index.go", "internal/ddl/function.go"],
 [("ToSQL", "internal/ddl/table.go")], observe=["(*ddl.Table).ToSQL", "(*ddl.Index).ToSQL", "(*ddl.Function).ToSQL"])

prop("C22", "Storage parameters are stored under their own name with their own value",
 "Setting a supported table storage parameter stores exactly the value given, in the field of that name and in no other field, and reports an error exactly when the value is not of the parameter's type (decimal integers, numbers, and booleans in every PostgreSQL spelling); an unsupported parameter changes nothing.",
 ["inputs"], "all parameter names and value strings",
 "No storage parameter is tested without a database.",
 ["internal/ddl/table_storage_parameters.go", "internal/pg/table_storage_parameters.go"],
 [("TableStorageParameters.Set", "internal/ddl/table_storage_parameters.go")], observe=["(*ddl.TableStorageParameters).Set"])

prop("C23", "A written database description reads back identical",
 "Writing any database description as HCL and parsing the result, from memory or from a file, gives back an equal description, whatever names, comments, definitions and settings it contains, texts being valid Unicode without NUL in the normal form (NFC) that HCL prescribes.",
 ["inputs"], "all database descriptions",
 "The tests write one description.",
 ["internal/ddl/ddl.go", "internal/ddl/database.go", "internal/ddl/table.go", "internal/ddl/index.go", "internal/ddl/trigger.go", "internal/ddl/sequence.go", "internal/ddl/function.go"],
 [("Database.Write, ParseBytes", "internal/ddl/ddl.go")], observe=["(*ddl.Database).Write", "ddl.ParseBytes"])

prop("C24", "SSL modes never weaken the connection security they promise",
 "Connecting with an explicit SSL mode uses exactly that mode: disable never uses TLS, allow and prefer use unverified TLS and plain text in the documented order, require uses only TLS, verify-full uses only TLS with the certificate verified for the configured host; any other mode is rejected before connecting. Without an explicit mode, a connection that uses a password is made as verify-full, and any other with the environment's mode, a certificate being verified for the host that is connected to.",
 ["inputs", "configurations"], "all mode strings, hosts, passwords and environment settings",
 "No connection settings are tested without a database.",
 ["internal/pg/pg.go"], [("applySSLMode, New", "internal/pg/pg.go")], observe=["pg.New"])

prop("C25", "Connection options override the environment and retries are bounded",
 "Every connection attempt uses each explicitly given option and otherwise the environment's value; connecting makes at most one attempt more than the configured number of retries, stops at the first success, so that no extra connection is ever opened, waits between attempts with a pause that never shrinks, and if every attempt fails returns the last error and no connection; a number of retries below zero counts as none.",
 ["inputs", "fault_sequences"], "all option/environment combinations and every sequence of connection failures",
 "Connecting is not tested without a database.",
 ["internal/pg/pg.go", "internal/runbook/pg/pg.go"], [("New", "internal/pg/pg.go"), ("Target.Start", "internal/runbook/pg/pg.go")], observe=["pg.New"])

prop("C26", "Database inspection is all or nothing under faults",
 "If any query, row read or parse performed by a database inspection fails, at whatever point, the inspection returns an error and no description; it never returns a silently truncated description, and every opened result set is closed.",
 ["fault_sequences", "inputs"], "a failure at every query, row, scan, end-of-rows or definition",
 "Inspection is not tested without a database, and no fault is ever injected.",
 ["internal/pg/inspect.go", "internal/pg/columns.go", "internal/pg/check.go", "internal/pg/foreign_key.go", "internal/pg/functions.go", "internal/pg/index.go", "internal/pg/schemas.go", "internal/pg/sequence.go", "internal/pg/tables.go", "internal/pg/table_storage_parameters.go", "internal/pg/triggers.go", "internal/pg/parameters.go"],
 [("InspectDatabase and the List* queries", "internal/pg/inspect.go")], observe=["(*pg.Conn).InspectDatabase"])

prop("C27", "Inspection reports exactly what the database returned",
 "A successful inspection contains exactly the schemas, functions, sequences, tables, columns, checks, foreign keys, indexes, triggers and parameters the queries returned, each attribute in its own field, null texts as empty, details under the table they were queried for, and each detail query asks for exactly that table.",
 ["inputs"], "all result rows (any texts, nulls, flags and numbers)",
 "Inspection is not tested without a database.",
 ["internal/pg/inspect.go", "internal/pg/columns.go", "internal/pg/sequence.go", "internal/pg/tables.go"],
 [("List* functions", "internal/pg/*.go")], observe=["(*pg.Conn).InspectDatabase"])

prop("C28", "The inspection sort options sort, and only reorder",
 "With the option to sort columns, check constraints or indexes, the inspection lists columns by name, check constraints by expression, and indexes by schema, table and name respectively; sorting only reorders, and without an option the database's order is kept.",
 ["inputs", "configurations"], "all option combinations and all names and expressions",
 "The options are not tested.",
 ["internal/pg/inspect.go"], [("inspectTable, inspectTables", "internal/pg/inspect.go")], observe=["(*pg.Conn).InspectDatabase"])

prop("C29", "Verbosity options select exactly the documented log messages",
 "For every number of verbose and quiet flags, the default log shows errors always, and warnings, informational and debug messages exactly when one plus the verbose count minus the quiet count is at least one, two and three respectively, while a debug log, when requested, always receives every message.",
 ["configurations"], "all flag counts",
 "Log levels are not tested.",
 ["internal/logger/logger.go", "internal/cli/cli.go", "internal/cli/register.go"],
 [("New", "internal/logger/logger.go"), ("ArgParser.Parse", "internal/cli/cli.go")], observe=["logger.New", "cli.ArgParser.Parse"])

prop("C30", "Runbook output goes to the requested file and never over its source",
 "The graph and evaluation commands write to the explicitly named output if there is one, otherwise (graph with automatic naming) to the runbook's name with its extension replaced by '.dot', otherwise, or for '-', to standard output; exactly the output ends up there, no other file is changed, they never overwrite the runbook they read, however its name is spelled, and failures to load the runbook and to open or write the output are reported.",
 ["inputs", "fault_sequences"], "all file names and option combinations",
 "One run to standard output is tested.",
 ["internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go", "internal/commands/base.go"], [("RunBookDotCmd.Run", "internal/commands/runbook_dot.go"), ("RunBookEvalCmd.Run", "internal/commands/runbook_eval.go")], observe=["commands.RunBookDotCmd.Run", "commands.RunBookEvalCmd.Run"])

prop("C31", "A task-set target answers every queued task once and then shuts down",
 "For every sequence of task batches queued on a started task-set target, exactly one result is delivered for each task, carrying that task's own outcome, no more tasks run at once than the target's concurrency limit (one if the limit is lower), and once the queue is closed and all results have been delivered the result channel is closed and no goroutine is left behind, whatever the interleaving.",
 ["schedules", "inputs", "histories"], "all batches, task outcomes and interleavings of sender, dispatcher, workers and receiver",
 "Two fixed sequences are run, and the shutdown is never waited for.",
 ["internal/taskset/base/base.go", "internal/taskset/demo/demo.go", "internal/taskset/pg/pg.go", "internal/taskset/sh/sh.go"],
 [("RunTasks", "internal/taskset/base/base.go")], observe=["base.RunTasks"])

prop("C32", "Task-set files bind each task to its declared target and dependencies",
 "Parsing a task-set file fails if it is malformed, names an unknown target or class, has unsuitable settings or declares a task or target twice, and otherwise yields every declared target with its own settings and, for each declared task, a task of the class named after the slash created by the target it names (the class's default target when it names none), whose dependencies are exactly its 'after' tasks, marked as tasks, followed by its required resources, and which provides exactly its provided resources.",
 ["inputs"], "all task-set documents",
 "The tests only check that one file parses.",
 ["internal/taskset/parser/parser.go", "internal/taskset/base/base.go"],
 [("Parser.loadTasks", "internal/taskset/parser/parser.go"), ("Task.Dependencies", "internal/taskset/base/base.go")], observe=["(*parser.Parser).Parse", "(*base.Task).Dependencies"])

prop("C33", "Targets validate their settings and only run their own kind of task",
 "For every target class, a target whose concurrency setting is below one is rejected, an accepted target reports exactly its configured concurrency, only the documented task classes can be created, a task is executed only by a target of the class it belongs to (any other task gives an error and no effect), and a PostgreSQL task is accepted exactly when it has SQL.",
 ["inputs", "configurations"], "all settings, class names and target/task pairs",
 "A few fixed settings and classes are tested.",
 ["internal/runbook/sh/sh.go", "internal/runbook/pg/pg.go", "internal/runbook/demo/demo.go", "internal/runbook/pg/exec.go"],
 [("Analyze, NewTaskConfig, Handle", "internal/runbook/sh/sh.go")], observe=["types.Target"])

prop("C34", "Evaluating a runbook prints the same JSON document",
 "For every document a runbook evaluates to, the evaluation command prints exactly one well-formed JSON document that is equal to it, with or without colours (colours only add terminal control sequences between tokens), whatever keys, strings, numbers and nesting it has; a failure to write it is reported.",
 ["inputs", "fault_sequences"], "all documents and write failures",
 "One document is printed, and only that something is printed is checked.",
 ["internal/runbook/runbook.go", "internal/commands/runbook_eval.go"], [("Eval", "internal/runbook/runbook.go")], observe=["runbook.Eval", "commands.RunBookEvalCmd.Run"])

prop("C35", "Generated CREATE TRIGGER statements carry the whole trigger",
 "The SQL generated for a trigger is a CREATE TRIGGER statement with exactly the trigger's name, timing, events, UPDATE column list, table, constraint, deferrable, initially-deferred and row/statement attributes and function.",
 ["inputs"], "all triggers with at least one event",
 "One trigger is tested.",
 ["internal/ddl/trigger.go", "internal/ddl/util.go"],
 [("Trigger.ToSQL", "internal/ddl/trigger.go")], observe=["(*ddl.Trigger).ToSQL"])

prop("C36", "Runbook SQL tasks execute exactly their SQL once on the target's connection",
 "When a PostgreSQL target starts it connects once, with its own settings, and executes nothing; each of its tasks then executes exactly its SQL text (all of its statements, unchanged) exactly once on that connection and fails if and only if the server rejects it or the connection is lost. A target that cannot connect is reported and none of its tasks is executed, no task is executed before the tasks it follows or after one of them failed, and the connection is ended properly when the target stops.",
 ["inputs", "schedules", "faults"], "all SQL texts and histories of acceptance, rejection and loss of the connection",
 "The integration test executes one statement; none uses a target.",
 ["internal/runbook/pg/pg.go", "internal/runbook/pg/exec.go", "internal/pg/pg.go"],
 [("Target.Start", "internal/runbook/pg/pg.go"), ("Target.Stop", "internal/runbook/pg/pg.go"), ("Exec.exec", "internal/runbook/pg/exec.go"), ("Conn.Exec", "internal/pg/pg.go")],
 observe=["(*runbook/pg.Target).Handle", "(*runbook/pg.Target).Start"])
prop("C37", "The ping and inspect commands connect and write as their options say",
 "The ping and inspect commands connect to the host, port, database, user and SSL mode given by their options, or else by the environment, and end the connection; ping prints exactly the server's version; inspect writes exactly the description of the database, sorted as its sort options say, to standard output or to the requested file and nowhere else. An unknown SSL mode, a failure to connect, to inspect or to write is reported, and after a failure to connect or to inspect no description is written and no file is changed.",
 ["inputs", "faults"], "all option values, spellings and environments",
 "The tests only parse command lines.",
 ["internal/cli/ping.go", "internal/cli/inspect.go", "internal/commands/ping.go", "internal/commands/inspect.go"],
 [("PingCmd.Run", "internal/commands/ping.go"), ("InspectCmd.Run", "internal/commands/inspect.go"), ("registerInspect", "internal/cli/inspect.go")],
 observe=["(*commands.InspectCmd).Run", "(*commands.PingCmd).Run"])
prop("C38", "Looking a function or trigger up finds exactly the one that was asked for",
 "DescribeFunction and DescribeTrigger return exactly the attributes of the function or trigger whose schema, (table) and name are equal to the requested ones; they report ErrNotFound if and only if there is none, and any failure of the query, the connection or the definition's parser as another error, without a result.",
 ["inputs", "faults"], "all names and catalogs",
 "The integration tests look for one function and trigger that exist and ones that do not.",
 ["internal/pg/functions.go", "internal/pg/triggers.go", "internal/pg/errors.go"],
 [("Conn.DescribeFunction", "internal/pg/functions.go"), ("Conn.DescribeTrigger", "internal/pg/triggers.go")],
 observe=["(*pg.Conn).DescribeFunction", "(*pg.Conn).DescribeTrigger"])

prop("C39", "A task's message is logged exactly when the task starts",
 "Running a runbook logs the message of every task that is executed exactly once, verbatim and as information, before the task is executed and not before its target has started and everything it depends on has finished successfully; messages of tasks that are not executed, and empty messages, are never logged.",
 ["inputs", "schedules", "faults"], "all messages, dependency relations, failing tasks and schedules",
 "No test looks at the messages.",
 ["internal/runbook/runner.go"],
 [("startScheduler", "internal/runbook/runner.go"), ("startTargetGoroutine", "internal/runbook/runner.go")], observe=["runbook.Run", "sys.Logger"])
prop("C40", "A sleep task pauses for the configured seconds, at least one",
 "A sleep task of a demo target, in a runbook or a task set, that passed its check pauses for exactly the configured number of seconds, or for one if less than one is configured, every time it is executed; it succeeds, and prints and changes nothing else.",
 ["inputs"], "all numbers of seconds",
 "The tests run no sleep task, as it would take at least a second.",
 ["internal/runbook/demo/tasks.go", "internal/taskset/demo/sleep.go"],
 [("Sleep.munge", "internal/runbook/demo/tasks.go"), ("Sleep.exec", "internal/taskset/demo/sleep.go")], observe=["(*demo.Target).Handle", "(*demo.Target).Run"])
prop("C41", "The version command prints the version, and every module if asked to",
 "The version command writes a line with the program's name and version to its standard output and nothing else; with --long, and if the build's modules are known, that line is followed, after an empty one, by one line for each module, in order, with exactly its path and version, however long, on the same standard output.",
 ["inputs"], "all names, versions and lists of modules",
 "The tests only look for one version in the output.",
 ["internal/commands/version.go", "internal/cli/version.go"],
 [("VersionCmd.Run", "internal/commands/version.go"), ("registerVersion", "internal/cli/version.go")], observe=["(*commands.VersionCmd).Run", "cli.RegisterCommands"])
prop("C42", "The program's exit status and output tell whether its command succeeded",
 "The pgutil program exits with status 0 exactly if its command line is valid and its command succeeds, whatever its verbosity and wherever the debug log goes; otherwise it exits with another status after it printed the error. An invalid command line executes nothing, and a command prints its output if it succeeds.",
 ["inputs", "schedules", "faults"], "all command lines, flags, errors and schedules",
 "The tests call the commands, but not the program.",
 ["main.go", "internal/cli/cli.go", "internal/cli/register.go", "internal/cli/runbook.go"],
 [("main", "main.go"), ("ArgParser.Parse", "internal/cli/cli.go"), ("RegisterCommands", "internal/cli/register.go")], observe=["the process's exit status, stdout and stderr"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
