#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


RUN = "booktest/testcaserun.py"
prop("C01", "An accepted result passes when the test repeats it",
     "Whatever mixture of output operations a test uses (checked and informational text, headings, anchors, key-value lines, lists, sets, tables, measured values, passing assertions), once its result has been accepted every later run that writes the same output is reported OK. Such a run leaves the accepted snapshot byte for byte as it was, and accepting it again changes nothing.",
     ["programs", "inputs"],
     "every test program built from the public output operations and every text they write (anchors and sets at the beginning of a line, sets with distinct one-line elements, ended by a line that is not an element)",
     "The existing tests are some sixty fixed programs whose snapshots are committed; they never combine the operations otherwise, and they write almost only plain words and numbers.",
     [RUN, "booktest/tokenizer.py", "booktest/review.py"],
     [("token by token comparison with a cursor in the snapshot", RUN + ": feed_token, commit_line, next_exp_line"),
      ("lossless tokenizer", "booktest/tokenizer.py: TestTokenizer"),
      ("acceptance moves the output over the snapshot", "booktest/review.py: freeze_case")],
     ["cases.txt verdict, the .md in the books directory before and after"],
     [("snapshot cursor", "current line and token of the accepted document", RUN + ": exp_line, exp_tokens, exp_line_number")])

prop("C02", "A change in checked output is always reported",
     "Every checked word, number, blank or line end that a run writes is compared with what the accepted snapshot has at the same place, counted from the start of the document or from the last heading or anchor, and any mismatch makes the test differ and not OK, as does a document cut off after a checked line. So checked text that is replaced, inserted or removed, inside a line or as whole lines, is reported unless informational text or a heading takes its place. A test that has no accepted snapshot is reported as differing too.",
     ["programs", "inputs"],
     "every accepted program and every change of the checked text it writes",
     "All existing tests reproduce their committed snapshots; none of them differs from its snapshot, so no test shows that a difference would be seen.",
     [RUN, "booktest/tokenizer.py"],
     [("diff marks per line, counted when the line is committed", RUN + ": feed_token, diff, commit_line, end"),
      ("tokenizer splits words, numbers and blanks without losing characters", "booktest/tokenizer.py")],
     ["cases.txt verdict and exit status of the run"],
     [("diff counter", "number of differing lines in this run", RUN + ": diffs, line_diff")])

prop("C03", "Informational text and section order never cause differences",
     "Text written as informational never makes a result differ: it may change freely after the last checked text of its line, token for token inside a line, and in its number of lines at the end of a headed section that keeps at least one such line. Sections with distinct headings may also be written in another order than in the accepted snapshot. Checked text in such lines and sections is still compared with its own section.",
     ["programs", "inputs"],
     "every document made of headed sections, every order of the sections, every change of the informational text, with and without a change of the checked text",
     "The one existing test with random order and log lines samples a few shuffles and line counts per run, and no test combines a reordering with a changed line.",
     [RUN],
     [("headings seek their line in the snapshot, wrapping around", RUN + ": header, anchorln, seek, jump"),
      ("informational tokens advance the cursor without comparing", RUN + ": feed, feed_token")],
     ["cases.txt verdict"],
     [("snapshot cursor", "where the comparison continues", RUN + ": exp_line_number")])

prop("C04", "Sets are compared as sets",
     "A run that writes a set of lines is reported OK exactly when the set has the same elements as the set at that place of the accepted snapshot, in whatever order either was written. Text before and after the set is compared as if the order had not changed, also when the set is the last thing the test writes.",
     ["programs", "inputs"],
     "every pair of accepted and current element sets and orders, at every place of the document (distinct one-line elements; the line after the set is not an element)",
     "The existing set test writes one fixed set in shuffled order and never a missing, added or replaced element.",
     [RUN],
     [("collects the expected elements by prefix, then ticks them off and seeks", RUN + ": tset, seek_line, jump")],
     ["cases.txt verdict"])

prop("C05", "Failures are always reported and can never be accepted",
     "A test in which an assertion does not hold, a time limit is exceeded, a failure is marked, or which raises (also when it tries to exit the interpreter or returns a value that cannot be stored) is reported as failed, whatever else it writes and whether or not its output equals the snapshot. No run or review, in no mode and with no answer, makes the output of a failed test the accepted snapshot or its record OK.",
     ["programs", "configurations", "histories"],
     "every way of failing at every position of a test, every combination of run and review modes and answers, before and after an accepted snapshot exists",
     "No existing test fails on purpose, and none runs the accepting modes.",
     [RUN, "booktest/testrun.py", "booktest/review.py"],
     [("errors counted separately from diffs, exceptions turned into errors", RUN + ": fail, commit_line, end; booktest/testrun.py: run_case"),
      ("accepting requires a result that is not a failure", "booktest/review.py: interact, case_review")],
     ["cases.txt, exit status, the books directory"])

prop("C06", "Snapshots change only when a result is accepted",
     "The files in the books directory other than the overview page change only when a result is accepted, by the accept answer in an interactive run or review, by auto-accept on a difference or by auto-update on success, and then only that test's document and files, which become exactly what that run wrote. Running, reviewing without accepting, listing, printing, forgetting and all other commands leave every snapshot as it was, and the document a run wrote stays available for a later review until it is accepted or the test runs again. Accepting is idempotent: accepting a result whose output has already been accepted loses nothing.",
     ["histories", "configurations"],
     "every sequence of commands and answers over a set of tests whose behaviour changes between runs",
     "The existing tests are one plain run each; no test performs a sequence of runs, reviews and acceptances, and none looks at the books directory afterwards.",
     ["booktest/review.py", RUN, "booktest/tests.py", "booktest/runs.py"],
     [("acceptance", "booktest/review.py: case_review, freeze_case, review"),
      ("output is written to a separate directory", RUN + ": open"),
      ("commands", "booktest/tests.py: exec_parsed")],
     ["the tree under the books directory after every step"],
     [("accepted snapshot", "<books>/<test>.md and <books>/<test>/", "booktest/review.py"),
      ("current output", "<books>/.out/<test>.md and directory", RUN)])

prop("C07", "Exit status and reports tell the truth",
     "A run ends successfully (exit status 0) exactly when every test it ran is OK after acceptance, a review exactly when every test in the stored report is, and otherwise with a failure status, whether tests run serially or in parallel. The stored case report then has exactly one entry per test run or kept, with the verdict the test really had, and the printed summary names exactly the tests that are not OK and counts them correctly.",
     ["programs", "configurations", "histories"],
     "every combination of test outcomes, run modes (serial, parallel, interactive answers, accept, continue, review) and earlier reports",
     "The test driver only ever looks at runs in which all tests pass, and only in serial mode.",
     ["booktest/testrun.py", "booktest/runs.py", "booktest/review.py", "booktest/reports.py", "booktest/cli.py", "booktest/__main__.py"],
     [("overall result", "booktest/testrun.py: run_async; booktest/runs.py: parallel_run_tests; booktest/review.py: review"),
      ("case report file", "booktest/reports.py: CaseReports"),
      ("summary", "booktest/review.py: end_report")],
     ["process exit status, cases.txt, stdout"])

prop("C08", "An interrupted run can be continued",
     "If a run is stopped at any point (killed between or inside file writes, or interrupted from the keyboard), the next run, continued run or review works without crashing or hanging and ends as if the interruption had not happened: a continued run skips only tests recorded OK, runs all others, and dependents never get a damaged or wrong value from the interrupted run. Verdicts of tests that had finished before the stop are kept, and no accepted snapshot is lost or changed except by an acceptance under way, which leaves every accepted file as it was or as it is to be, never a part of it.",
     ["crash_points", "histories"],
     "every point at which the process can stop during a run or an accepting run, including half-written files, followed by each way of going on",
     "Nothing in the existing tests interrupts a run; crash points and torn files are never exercised.",
     ["booktest/testrun.py", "booktest/reports.py", "booktest/review.py", "booktest/runs.py"],
     [("report written and flushed per case, tolerant reader", "booktest/testrun.py: run_async; booktest/reports.py: CaseReports"),
      ("stored return values", "booktest/testrun.py: save_test_result, get_test_result")],
     ["exit status, cases.txt, books directory and value files after recovery"])

prop("C09", "Selected tests run exactly once, after what they depend on",
     "A run executes every selected test exactly once, plus every test a selected test depends on, directly or indirectly, whose stored value is missing or whose refresh was asked for, and nothing else. Every test runs after all the tests it depends on that are part of the run, whatever the registration order and however many tests share a dependency.",
     ["programs", "configurations", "histories"],
     "every acyclic dependency graph, registration order, selection, subset of stored values, and refresh or continue mode",
     "The existing suites contain chains of two or three tests in one registration order and are always selected as a whole.",
     ["booktest/tests.py", "booktest/dependencies.py", "booktest/testrun.py"],
     [("transitive selection in dependency order", "booktest/tests.py: selected_names, all_method_dependencies, method_dependencies"),
      ("matching of methods to tests", "booktest/testrun.py: match_method")],
     ["order of test executions, cases.txt, -l output"])

prop("C10", "Dependents receive the value their dependency returned",
     "A test receives, for each declared dependency and in declared order, the value that dependency returned in its last non-failing run (an absent or falsy value included), or the resource's value, whatever memory cache is used and whether the dependency ran in this run, in an earlier one or in another process. Methods of a test class instantiated several times receive the value of their own instance.",
     ["programs", "configurations", "histories"],
     "every returned value kind, cache policy and size, binding (function, method, several instances, inherited) and history of runs (tests do not modify the values they receive; a cache object is reused only by serial runs of one process)",
     "The existing tests pass two or three values with a cache that never evicts them; eviction, absent values and the cache-less mode do not occur.",
     ["booktest/dependencies.py", "booktest/testrun.py", "booktest/cache.py"],
     [("two level value store", "booktest/testrun.py: get_test_result, save_test_result"),
      ("cache policies", "booktest/cache.py"),
      ("argument binding", "booktest/dependencies.py: call_class_method_test, call_function_test")],
     ["arguments observed inside the tests, verdicts"],
     [("value store", "memory cache plus <books>/.out/<test>.bin", "booktest/testrun.py")])

prop("C11", "A parallel run gives the results of a serial run",
     "For every test suite and number of workers, and in whatever order tests finish, a parallel run gives each test the verdict, output document, logs, files and stored value a serial run gives it. Apart from durations and the order of entries, the stored report, the printed verdicts and the exit status are also the same.",
     ["schedules", "programs"],
     "every completion order and interleaving of workers, scheduler and reporter, for every dependency structure and mixture of outcomes",
     "The test driver never uses parallel mode.",
     ["booktest/runs.py", "booktest/testrun.py", "booktest/review.py"],
     [("per-test jobs and merged reports", "booktest/runs.py: RunBatch, ParallelRunner, parallel_run_tests")],
     ["the output tree, cases.txt, exit status"])

prop("C12", "Parallel runs respect resources and dependencies in every schedule",
     "At no moment of a parallel run are two tests executing that name the same exclusive resource, and no test starts before every test it depends on in that run has finished. Tests that do not conflict are not kept waiting for each other while a worker is free.",
     ["schedules", "programs"],
     "every interleaving and completion order, for every assignment of resources and dependencies to a small set of tests",
     "The test driver never uses parallel mode, and overlap depends on timing that a single run samples once.",
     ["booktest/runs.py", "booktest/dependencies.py", "booktest/tests.py"],
     [("planning under reserved resources and finished dependencies", "booktest/runs.py: ParallelRunner.plan, thread_function"),
      ("resource identity", "booktest/dependencies.py: Resource, port")],
     ["start and end of every test's execution"],
     [("reserved resources", "identifiers held by scheduled tests", "booktest/runs.py: reserved_resources")])

prop("C13", "Parallel runs always finish and account for every test",
     "A parallel run ends in every schedule, also when tests fail, exit, return values that cannot be stored, depend on failed tests, cannot be started because the set-up fails, or when the user quits, interrupts or stops at the first failure. Each test of the run is then recorded exactly once with its verdict, or, if the run was stopped early, those that had not been reported may be left out but none is recorded as OK without having passed.",
     ["schedules", "fault_sequences"],
     "every interleaving, combined with every placement of a fault in a test or its set-up, and every point of quitting",
     "The test driver never uses parallel mode; hangs depend on schedules and faults no test produces.",
     ["booktest/runs.py"],
     [("hand-over of finished jobs between scheduler thread and reporter", "booktest/runs.py: thread_function, next_report, has_next, abort"),
      ("job wrapper", "booktest/runs.py: RunBatch.__call__")],
     ["termination, cases.txt, exit status"])

prop("C14", "HTTP traffic is replayed exactly as it was recorded",
     "After HTTP traffic was captured and accepted, a later run of the same test receives for every request, including the n-th repetition of an identical request and concurrent ones, the response that was recorded for it (status, body, text or binary, and headers), makes no real request, and passes. A request that was not recorded fails the test instead of going out unless capturing is on; completing keeps recorded responses and fetches only the missing ones, refreshing fetches all anew.",
     ["histories", "inputs", "schedules"],
     "every short sequence of requests over methods, addresses, bodies and headers, every order in which concurrent requests complete, in every capture mode, for both supported client libraries",
     "The existing tests replay a few committed recordings of plain text; the network is never used, so recording, repeats and refreshes are not exercised.",
     ["booktest/requests.py", "booktest/httpx.py"],
     [("request identity with order number for repeats", "booktest/requests.py and booktest/httpx.py: RequestKey, mark_order"),
      ("stored snapshot file", "SnapshotRequests, SnapshotHttpx: start, stop")],
     ["responses seen by the test, real calls made, the snapshot files"])

prop("C15", "Function results are replayed as recorded",
     "After calls of snapshotted functions (whose values depend on their arguments only and can be expressed in JSON) were captured and accepted, a later run of the same test returns an equal value for every call without calling the function, and passes, even if the test modifies values it received. A call that was not recorded fails the test unless capturing is on; completing calls only what is missing, refreshing calls everything anew, and mocked functions are replaced exactly during the test.",
     ["histories", "inputs"],
     "every short sequence of calls over functions and arguments, in every capture mode",
     "The existing tests replay one committed recording each.",
     ["booktest/functions.py"],
     [("call identity and lookup", "booktest/functions.py: FunctionCall, SnapshotFunctions.snapshot"),
      ("replacing and restoring functions", "booktest/functions.py: set_function, start, stop")],
     ["values seen by the test, calls of the real functions, the snapshot files"])

prop("C16", "Environment snapshots and mocks show the right values and are undone",
     "Inside a test, snapshotted environment variables have the recorded values (absent ones are absent), mocked ones the mocked values, and mocked-if-missing ones the mocked value only when they are not set and snapshots are not being captured. After the test, however it ends, every variable is as it was before, and a variable without a recorded value fails the test unless capturing is on.",
     ["configurations", "histories", "inputs"],
     "every combination of recorded, current and mocked state of a few variables, capture mode, stacking of decorators of different kinds and way of ending",
     "The existing tests use one variable in one state each.",
     ["booktest/env.py"],
     [("save, set and restore", "booktest/env.py: SnapshotEnv, MockMissingEnv, MockEnv")],
     ["the environment inside and after the test, the snapshot file, the verdict"])

prop("C17", "A test leaves the process as it found it",
     "After a test ends in any way (passing, differing, failing, raising, exiting, being interrupted), standard error, logging handlers, environment variables, mocked functions and HTTP clients are what they were before the test, and its log messages and standard-error text are in its own log and in no other test's. This holds for every nesting of the supplied decorators and for the whole run.",
     ["programs", "fault_sequences"],
     "every decorator combination, way and place of ending, and order of such tests in a run",
     "The existing tests only end normally and never look at the process state afterwards.",
     [RUN, "booktest/testrun.py", "booktest/env.py", "booktest/functions.py", "booktest/requests.py", "booktest/httpx.py"],
     [("swapping and restoring of handlers and streams", RUN + ": open, close"),
      ("decorators' exit paths", "__exit__ methods in env.py, functions.py, requests.py, httpx.py")],
     ["process state after each test and after the run, log files"])

prop("C18", "Selecting tests means what the names say",
     "A test is selected by its own name, by the name of any suite that contains it (whole path components only), or by the wildcard, and is excluded by the same forms with the skip marker, which always wins; with only exclusions, everything else is selected, and an unselected test runs only when a selected one needs its missing value. Without arguments the configured default selection applies, and the order and repetition of arguments does not matter.",
     ["inputs", "configurations"],
     "every set of hierarchical test names including names that are prefixes of others, and every short list of selectors",
     "The existing test driver always runs everything.",
     ["booktest/tests.py"],
     [("selection", "booktest/tests.py: is_selected, selected_names"),
      ("default selection", "booktest/tests.py: exec_parsed")],
     ["-l output and the tests that run"])

prop("C19", "Configuration sources are layered and never leak",
     "Each setting takes its value from the command line, else the environment, else the project configuration file, else the one in the home directory, else its default, with 1 and 0 meaning on and off. Options given to one run have no effect on later runs in the same process, and what the interactive set-up writes is read back as the values that were entered.",
     ["configurations", "histories"],
     "every subset of sources setting a value, every value kind, and every sequence of runs with different options in one process",
     "The test driver uses one configuration and one run per process.",
     ["booktest/config.py", "booktest/tests.py", "booktest/setup.py"],
     [("layering", "booktest/config.py: resolve_default_config; booktest/tests.py: exec_parsed"),
      ("set-up writer", "booktest/setup.py")],
     ["--config output, behaviour of later runs, the written file"])

prop("C20", "Clean-up removes garbage and only garbage",
     "The garbage listing names exactly the files under the books directory that are neither the overview page, nor the accepted document of an existing test, nor a file in an existing test's own directory, and cleaning removes exactly those files. A test suite whose output was cleaned still passes against its snapshots.",
     ["histories", "inputs"],
     "every small tree of files whose names are equal to, extend or are extended by test names, for every set of existing tests",
     "No existing test uses the clean-up commands.",
     ["booktest/tests.py"],
     [("garbage rule", "booktest/tests.py: exec_parsed (garbage, is_garbage)")],
     ["the listing and the tree before and after"])

prop("C21", "Every test works in its own fresh files",
     "The files and temporary files a test asks for are in directories that belong to that test only and are empty when it starts, and they stay until its next run. Running or accepting a test changes no output, file, log, stored value or snapshot of any other test, and accepting makes exactly the files of that run the accepted ones.",
     ["programs", "histories"],
     "every small set of tests with similar names, every set of files they write, and every sequence of runs and acceptances",
     "The existing tests run once each in a clean output directory.",
     [RUN, "booktest/review.py"],
     [("per-test directories purged at start", RUN + ": __init__, file, tmp_path"),
      ("acceptance replaces the directory", "booktest/review.py: freeze_case")],
     ["tree of the books and output directories after every step"])

prop("C22", "Set-up and tear-down bracket every run exactly once",
     "The project's set-up runs exactly once before the first test of a serial run, and once before every test's execution in a parallel run, and its tear-down exactly once after, also when tests fail or the run is interrupted or quit. The same holds around a single test for the set-up decorator, for plain and asynchronous tests.",
     ["programs", "fault_sequences", "schedules"],
     "every sequence of test outcomes and ways of ending, in serial and parallel mode, and every nesting of decorators",
     "The existing set-up test only checks one passing serial run.",
     ["booktest/utils.py", "booktest/detection.py", "booktest/runs.py"],
     [("generator bracket", "booktest/utils.py: SetupTeardown, setup_teardown"),
      ("run bracket", "booktest/runs.py: run_tests, RunBatch.__call__")],
     ["order of set-up, test and tear-down events"])

prop("C23", "The output document holds exactly what the test wrote",
     "The document a run leaves consists of exactly the characters the test wrote, in order, completed by a final line end if the last line lacks one, whatever the snapshot contains and however often the comparison jumps in it. Structured helpers (headings, lists, sets, tables, key-value lines) write all their items with their text unchanged, except that line breaks and outer blanks of table cells are normalised. A number that is written without being compared is followed by the number accepted at its place, if there is one.",
     ["programs", "inputs"],
     "every sequence of output operations and texts, against every snapshot",
     "Existing tests compare with fixed documents; texts with unusual characters, signs, digits or blanks and foreign snapshots do not occur.",
     [RUN, "booktest/tokenizer.py"],
     [("tokens are appended to the line and committed", RUN + ": feed_token, commit_line, write_line"),
      ("tokenizer", "booktest/tokenizer.py")],
     ["the .md file in the output directory"])

prop("C24", "Fail-fast and quitting stop the run",
     "With fail-fast, a run starts no further test after the first one that is not OK, and after the quit answer none after the one being reviewed; a review stops asking likewise. Tests that finished are recorded with their verdicts, a continued run then goes on with the rest, and in a parallel run no test starts after the stop other than those already handed out to the workers.",
     ["programs", "schedules", "histories"],
     "every placement of passing, differing and failing tests, every point of quitting, serial and parallel, followed by a continued run",
     "All existing tests pass, so nothing ever stops early.",
     ["booktest/testrun.py", "booktest/runs.py", "booktest/review.py"],
     [("stop conditions", "booktest/testrun.py: run_async; booktest/runs.py: parallel_run_tests, abort; booktest/review.py: review")],
     ["tests executed, cases.txt, prompts shown"])

prop("C25", "Recorded traffic does not reveal request secrets",
     "The stored recordings of HTTP traffic contain no header that is to be ignored, by default none at all, and by default no request header or body, in whatever letter case they were sent; they contain them only when the test asks to keep request details. Replaying works equally well whether or not details are kept and whatever the ignored headers' values are at replay time.",
     ["inputs", "configurations", "histories"],
     "every combination of the detail and header options, header name spelling, body kind and client library, for recording, completing and replaying",
     "The existing tests only replay committed recordings; what a recording stores is never looked at.",
     ["booktest/requests.py", "booktest/httpx.py"],
     [("header filter and detail removal", "RequestKey.__init__, to_json_object")],
     ["the stored snapshot files and the output document"])

prop("C26", "Every test in the test directories is found once under its name",
     "Every test function, test class and suite defined under its own name in a test file of the configured directories becomes exactly the tests it defines, each named after the file path, class and method names only, and nothing else becomes a test. The listing contains each of them once, in the order they run, and the overview page once, under its suite.",
     ["inputs", "programs"],
     "every small layout of directories, test files and definitions",
     "The existing tests are one layout; its listing is not checked.",
     ["booktest/detection.py", "booktest/naming.py", "booktest/testbook.py", "booktest/testsuite.py", "booktest/review.py"],
     [("discovery", "booktest/detection.py: detect_tests, parse_test_file"),
      ("naming", "booktest/naming.py"),
      ("overview", "booktest/review.py: create_index")],
     ["-l output, index.md, cases.txt"])

prop("C27", "Paths are taken literally and effects stay in the books directory",
     "Test names and books directories containing blanks, quotes or characters special to a shell are used literally by every command: the files are created, read, printed, accepted, cleaned and handed to tools under exactly that name. No command, other than the set-up of the configuration and coverage measurement, creates, changes or removes a file outside the books directory, and none of these characters makes anything else execute.",
     ["inputs", "configurations", "histories"],
     "every command in serial and parallel mode, for names and directories containing each special character",
     "All existing names and directories are plain words.",
     ["booktest/testcaserun.py", "booktest/testrun.py", "booktest/runs.py", "booktest/review.py", "booktest/tests.py"],
     [("directory creation and removal, printing, tool calls", "calls of the shell in these files")],
     ["the tree around the books directory, stdout, tool arguments"])

prop("C28", "Documents refer to the files their test made",
     "The path that rel_path returns for a file below the directory of the test's document, and the one timage writes, lead from the document to exactly that file, both in the run's output and, after acceptance, in the books directory, where the file has the content the test gave it; no other file is kept for the test. For files outside that directory rel_path returns None. rename_file_to_hash renames the file to the digest of its content with the postfix asked for, in the directory it was in, so a document that refers to it differs exactly when the content does.",
     ["inputs", "histories"],
     "every kind of reference, test name, file name and spelling of the books directory, over run, acceptance, changed contents and repeated acceptance",
     "The existing tests refer to one image with one plain name.",
     [RUN, "booktest/review.py"],
     [("relative path of a file", RUN + ": rel_path, timage"),
      ("content digest as name", RUN + ": rename_file_to_hash"),
      ("files are accepted with their document", "booktest/review.py: freeze_case")],
     ["the document, the files beside it, cases.txt verdict"])

prop("C29", "What the user is shown is what happened",
     "Verbose output and the stored report of a test show each line of the document it wrote once and in order, marked '?' where the line differs and '!' where it failed, beside the accepted line it was compared with: an OK test shows no marks, a failed one at least one '!', and one that differs from its accepted document at least one '?' and no '!'. A review of stored results and a parallel run show the same. With -L exactly what each test logged is shown with it. During an interactive review each tool is opened for the test asked about with its accepted document, its complete output or its complete log, whatever the names; viewing changes no result. --print, --path, --view and -l give the selected tests (with -c those --print, --path and -l still have to pass), in the order they run, with the exact accepted documents. The times shown with a result and in the summary, and those stored, are how long the test and the run took; where differences are pointed to (point_error_pos), the marker is below the first difference or the failure.",
     ["programs", "histories", "configurations"],
     "every test program and accepted document, every verdict, every sequence of reviewing answers, every selection",
     "The existing tests compare documents only; nothing reads what is printed about them.",
     [RUN, "booktest/review.py", "booktest/reports.py", "booktest/tests.py"],
     [("report lines and marks", RUN + ": commit_line, report"),
      ("replay of stored reports and logs", "booktest/review.py: report_case, maybe_print_logs"),
      ("tools", "booktest/review.py: interact, run_tool"),
      ("printing commands", "booktest/tests.py: exec_parsed")],
     ["stdout, the stored .txt and .log, the arguments and files the tools are given"])

prop("C30", "Assertions fail exactly when their condition does not hold",
     "assertln, must_equal, must_contain, must_be_a and must_apply make the test fail exactly when the condition they state does not hold for the value, or evaluating it raises; the condition is evaluated once with the very value, and later assertions on the value and its members are still made. tmsln fails exactly when the measured function took longer than its limit, imsln never; both run the function once and return what it returned. The document says for each assertion whether it held, with the message given. A failed assertion can't be accepted and fails again in every later run in which it does not hold; one that holds never makes the test differ.",
     ["programs", "inputs"],
     "every assertion over every pair of values, every message and place in a line, every sequence of assertions on values and members, every limit and measured function",
     "The existing tests contain only assertions that hold, apart from two.",
     [RUN],
     [("assertions", RUN + ": assertln, must_apply, must_contain, must_equal, must_be_a, TestIt"),
      ("measurements", RUN + ": tmsln, imsln, ifloatln")],
     ["cases.txt verdict, the document"])

prop("C31", "Suites made of suites hold exactly the tests of their parts",
     "Naming a suite, merging suites and dropping a prefix give exactly the tests of the parts, under exactly the changed names, in the order of the parts and each test once, and leave the parts as they were; decorating a suite runs each of its tests inside the decoration. Tests of suites made so, by any sequence of these operations, run as before: with their own decorations, resources and arguments, as coroutines or functions, and with the values of the tests they depend on, which they find as long as these are in the suite, decorated or not.",
     ["programs"],
     "every expression of suite operations over suites of functions, coroutines, test books and dependencies",
     "The existing tests merge and decorate one suite each, without dependencies.",
     ["booktest/testsuite.py", "booktest/tests.py", "booktest/testrun.py", "booktest/dependencies.py", "booktest/utils.py"],
     [("suite operations", "booktest/testsuite.py"),
      ("finding the test of a dependency", "booktest/tests.py: case_by_method, method_dependencies"),
      ("decorated methods", "booktest/utils.py, booktest/dependencies.py: get_decorated_attr, remove_decoration")],
     ["the tests listed, what runs with which environment and values, cases.txt verdicts, documents"])

prop("C32", "Accepted recordings stay as they are until the test changes",
     "Once the HTTP traffic, function results and environment of a test are recorded and accepted, every later run of the unchanged test without refreshing proposes exactly the recorded files, byte for byte, in a serial or parallel run, whatever the network, functions and environment would give by now, and accepting it changes nothing; runs that fail, differ or are not accepted leave the recordings, and so do runs of other tests. Recording the same again gives the same files. If the test has changed and is accepted, with its recordings completed where needed, what it still uses is exactly as recorded, what it no longer uses is gone, and only what is new is of the present.",
     ["histories", "programs"],
     "every program, every sequence of commands, every pair of an earlier and a later program",
     "The existing tests replay one recording; none compares recordings after further runs or after a change of the test.",
     ["booktest/requests.py", "booktest/httpx.py", "booktest/functions.py", "booktest/env.py"],
     [("requests and httpx recordings", "booktest/requests.py, booktest/httpx.py: stop, lookup_snapshot, from_json_object"),
      ("function calls", "booktest/functions.py: SnapshotFunctions.stop"),
      ("environment", "booktest/env.py: SnapshotEnv")],
     ["the recording files of the test after each command"])

prop("C33", "Measuring coverage changes no result",
     "A run with --cov runs the same tests as the same run without it, with the same output, prompts, files, verdicts, reports and exit status, however its tests end, also when it is interrupted; in addition it leaves the coverage data, the XML report and the summary, which hold exactly the lines that the tests of this run executed, also of those run by worker processes that are set up for measuring, and nothing of earlier measurements. A run without --cov leaves these files alone.",
     ["inputs", "histories"],
     "every outcome of the tests, every command and sequence of commands, every state left by earlier measurements",
     "No existing test measures coverage through booktest.",
     ["booktest/tests.py", "booktest/runs.py"],
     [("measuring", "booktest/tests.py: exec_parsed, coverage"),
      ("worker processes", "booktest/runs.py: init_worker, ParallelRunner.__exit__")],
     ["exit status, output, files below the books directory; .coverage data and coverage.xml"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
