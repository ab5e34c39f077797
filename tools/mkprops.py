#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe or [],hook_needed=None)))
FS="stuart-core/src/fs/mod.rs"; LIB="stuart-core/src/lib.rs"; PROC="stuart-core/src/process/mod.rs"
B="stuart/src/build.rs"; M="stuart/src/main.rs"; SV="stuart/src/serve/mod.rs"; SC="stuart/src/scripts.rs"
NEW="stuart/src/new.rs"; PL="stuart/src/plugins/mod.rs"; PS="stuart/src/plugins/source.rs"; ER="stuart/src/error.rs"
FOR="stuart-core/src/functions/parsers/for.rs"
p("P01","A successful build publishes exactly the site its sources define",
 "When a build reports success, the output directory holds exactly the files that the project's current content, templates, data, static and temporary files define: every page rendered through its nearest root and markdown templates, every static and temporary file byte for byte, names laid out as the settings say, and nothing else. A build of valid sources during which nothing fails does report success, and sources that define no site (a template that is not valid, a missing root template, an undefined variable, malformed data) never do. This holds whatever the output directory contained before, whatever directory the command is run from and wherever the manifest and output lie, in whatever order the file system lists entries, and however it splits reads and writes.",
 ["inputs","configurations","histories","schedules"],
 "every project tree, settings combination, previous output directory contents, working directory, manifest and output path, directory listing order, and pattern of short or interrupted reads and writes",
 "The only build test builds two fixed projects into a fresh directory on a quiet disk and looks at one file; the unit tests render single pages in memory. None varies the tree, the old output, listing order or I/O behaviour.",
 [FS,LIB,PROC,B,FOR],[("tree read",FS+": create_from_dir, create_from_file"),("nearest templates",LIB+": build_node, update_from_children"),("rendering",PROC+": process_html, process_markdown"),("merge and layout",FS+": merge, save, save_recur"),("build driver",B+": StuartContext::build")],
 ["the output directory after exit 0"])
p("P02","A file-system failure is never reported as a successful build",
 "If any file-system operation made on behalf of a build fails, the build either still publishes exactly the site its sources define, or it ends by itself with an error message and a failing exit status. It never panics, hangs, or reports success with output or exported metadata that is missing, truncated, stale or partial.",
 ["fault_sequences","inputs","configurations"],
 "every choice of which open, read, write, listing, stat, create or delete operation fails, with which error, once or persistently (including a full disk), on every project",
 "No existing test makes any I/O operation fail; errors on one directory listing or one write out of hundreds cannot be provoked on a healthy disk.",
 [FS,B,M,SC,ER],[("errors mapped and propagated",FS+": create_from_dir, create_from_file, save, save_recur, save_metadata"),("exit status",M+": main"),("error display",ER+": StuartError::print")],
 ["exit status, standard error, output directory, metadata file"])
p("P03","A build that fails before publishing leaves the published site untouched",
 "If a build fails because of its inputs - invalid or unreadable sources, missing templates, unloadable plugins, a filename conflict, a bad manifest or a failing pre-build script - the previously published output directory and exported metadata are left byte for byte as they were. In particular nothing is deleted or rewritten before the complete new site exists in memory.",
 ["inputs","fault_sequences","histories"],
 "every project with a defect anywhere in its sources or a read failure at any point, over every previously published site",
 "No test builds a broken project over an existing output directory.",
 [B,FS,LIB],[("output written only after processing and merging",B+": StuartContext::build"),("plugins and manifest loaded first",B+": StuartContext::init")],
 ["output directory and metadata.json before and after a failing build"])
p("P04","After a crash or power loss, the next build repairs the site completely",
 "If a build is killed, or the machine loses power, at any instant, then the next undisturbed build of the same sources succeeds and publishes exactly what a build from a clean checkout publishes, including exported metadata. Whatever torn, truncated, partial or resurrected files the interrupted build left in its own output, temporary, plugin-cache or metadata paths make no difference.",
 ["crash_points","histories","inputs"],
 "every operation of a build at which the process may be killed or power lost, every subset of un-synced writes surviving, repeated crashes, then one clean build",
 "Nothing in the test suite interrupts a build; the states a crash leaves behind are never constructed.",
 [FS,B],[("old output removed before saving",FS+": save"),("temporary directory merged then removed",B+": StuartContext::build"),("metadata rewritten in full",FS+": save_metadata")],
 ["output directory and metadata.json after the recovery build"])
p("P05","Stuart never alters the project's sources",
 "Building, benchmarking, serving or cleaning a project never creates, changes or deletes anything outside the output directory, the temporary directory, the plugin build directory and the exported metadata file (what build scripts, cargo and git do themselves aside). This holds when operations fail, when the process is killed at any point, and when the old output contains symbolic links that lead back to sources or outside the project.",
 ["fault_sequences","crash_points","inputs","histories"],
 "every project tree, every pre-existing output tree including symbolic links, every command, every single or repeated I/O failure and every kill point",
 "Tests check only that a build succeeds, never what else it touched, and never under faults.",
 [FS,B,M,SV],[("recursive removal limited to output and temp",FS+": save; "+B+": build"),("clean removes fixed names",M+": clean")],
 ["every path outside the permitted ones, after and during each run"])
p("P06","Filename conflicts fail the build instead of silently losing a file",
 "If two different source files - pages, static or temporary files - would be published at the same place in the output, or one would have to be a file where another needs a directory, the build fails with an error and leaves the previously published site untouched. No file is ever silently overwritten, merged away or dropped, whichever order the file system lists them in.",
 ["inputs","configurations","schedules"],
 "every pair of colliding sources across content, static and temp, in every settings combination, nesting depth and listing order",
 "No test has conflicting files; which file wins depends on directory listing order that a test on one disk never varies.",
 [FS,B],[("merge conflict detection",FS+": merge"),("extension stripping",FS+": save_recur"),("markdown renaming",PROC+": process_markdown")],
 ["exit status and output directory"])
p("P07","Build scripts run in order, exactly once, and their failure stops the build",
 "In every build each pre-build script runs exactly once and finishes before any content is read, and each post-build script runs exactly once, after the complete output and metadata are in place, with the documented environment variables. If a script cannot be started, exits with a non-zero status or is killed by a signal, the build stops at that point, runs nothing further, and reports failure.",
 ["histories","fault_sequences","schedules"],
 "every combination of scripts present, their outcome (success, any non-zero status, any signal, failure to start), their output volume and timing, over single and repeated builds",
 "No test project contains a script at all.",
 [SC,B],[("script discovery and execution",SC+": Scripts::from_directory, execute"),("ordering in the build",B+": StuartContext::build")],
 ["script start/exit events relative to source reads and output writes"])
p("P08","Exported metadata always describes the published build",
 "When metadata export is enabled, every successful build leaves a metadata file that is complete valid JSON carrying the configured site name and author and listing exactly the pages (under their .html names), templates, data, static and temporary files and directories that make up that build, with each page's front matter and each data file's value. When export is disabled no build touches the metadata file, and a build that fails before publishing leaves the old one unchanged.",
 ["inputs","histories","configurations","fault_sequences"],
 "every project tree and settings combination, sequences of builds over changing sources, and short or failing writes of the metadata file",
 "No test enables metadata export.",
 [FS,LIB,B],[("metadata tree",FS+": save_metadata, save_metadata_recur"),("enabled check",LIB+": save_metadata"),("ordering before post-build scripts",B+": StuartContext::build")],
 ["metadata.json, also as seen by the post-build script"])
p("P09","The development server always catches up with the latest edits",
 "After edits to the project's sources stop, and if the final sources are buildable, the development server's output within a bounded time equals what a fresh build of those final sources produces. This holds for any number and timing of edits (creations, changes, deletions and renames of files and directories), including edits that pass through broken intermediate states.",
 ["schedules","histories","fault_sequences"],
 "every sequence and timing of edits relative to watcher, rebuild and server threads, and every watcher notification delay, merge or overflow",
 "The development server has no tests; whether an edit is lost depends on where in a rebuild it lands.",
 [SV],[("event loop and drain",SV+": build_watcher"),("recursive watch",SV+": serve")],
 ["the output directory once the server is idle"])
p("P10","The development server goes idle: its own writes never trigger rebuilds",
 "When no source changes, the development server does not rebuild: whatever it writes itself - the output directory wherever it was configured to lie inside or outside the project, temporary files, exported metadata, plugin build products - never starts another build. After the last edit only a bounded number of further builds take place.",
 ["schedules","configurations","histories"],
 "every output path, settings combination, edit history and interleaving of watcher notifications with builds",
 "No test starts the development server, let alone with a non-default output path or metadata export.",
 [SV],[("ignored paths",SV+": build_watcher")],
 ["number of builds and whether the process becomes idle"])
p("P11","Browsers are told to reload after, and only after, a complete successful rebuild",
 "Each rebuild that succeeds sends exactly one reload message to every live-reload client connected throughout it, and only once the new output is completely written and post-build scripts have finished. A rebuild that fails sends none, so a client that reloads on a message always sees the finished new site.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of client connections, edits, rebuild outcomes and server threads",
 "The live-reload path has no tests and depends on thread interleaving.",
 [SV],[("broadcast after build",SV+": build_watcher"),("registration",SV+": websocket_handler")],
 ["messages received by each client relative to writes of the output"])
p("P12","The development server survives everything short of failing to start",
 "Once started, the development server keeps watching, rebuilding and answering requests through failed builds, failing file operations, removed files, lost or overflowing watcher notifications, and malformed, aborted or slow requests (as long as fewer requests hang than the server has worker threads). If it cannot start - bad manifest, or its port is taken - it says so and exits with a failing status instead of lingering uselessly.",
 ["fault_sequences","schedules","histories"],
 "every sequence of build failures, watcher anomalies, I/O errors, bad clients and start-up failures at any point",
 "No test runs the server or injects any of these faults.",
 [SV,ER],[("error reporting without exit",SV+": error_handler"),("watch loop",SV+": build_watcher"),("start-up",SV+": serve")],
 ["process liveness, rebuild after the fault, answers to later requests, exit status"])
p("P13","The development server answers every request with exactly the published file",
 "While no rebuild is running, a request for a published page or file is answered with its exact current bytes and matching content type, the reload script inserted once immediately before the first closing body tag if there is one; a directory without trailing slash redirects, a directory with an index serves it, and anything else (including published names that contain `..` or a colon, which the server refuses on purpose) is not found. Answers do not depend on how requests are split into packets, follow each other on a connection or interleave with those of other clients, and no request ever yields bytes from outside the output directory.",
 ["inputs","schedules","fault_sequences"],
 "every request path (encoded, nested, traversing), every published tree, every segmentation of requests and partial writes of responses, any number of concurrent clients",
 "The request handler has no tests.",
 [SV],[("file lookup and script injection",SV+": serve_dir")],
 ["bytes received by each client"])
p("P14","One broken live-reload client never affects the others",
 "A live-reload client that disconnects, resets its connection or fails at any moment never stops the development server from rebuilding, nor keeps any other connected client from receiving every reload message, exactly once and uncorrupted. Clients that are gone are dropped and never again cause work or errors.",
 ["schedules","fault_sequences","histories"],
 "every number of clients, subset failing, moment of failure relative to rebuilds and broadcasts, and partial network write",
 "No test opens a live-reload connection.",
 [SV],[("removal of failed streams",SV+": build_watcher")],
 ["messages received by every surviving client"])
p("P15","Repeated builds in one process behave like fresh builds",
 "Every build made by a long-running process - each iteration of the benchmark and each rebuild of the development server - publishes exactly what a fresh process building the same sources would publish, no matter how many builds, successful or failed, came before it. Rebuilding unchanged sources changes nothing in the output.",
 ["histories","inputs","fault_sequences"],
 "every sequence of source states, including broken ones and injected failures, followed by further builds in the same process",
 "Tests build each project once per process.",
 [B,LIB,FS,M],[("builder state replaced per build",LIB+": Stuart::build"),("context reuse",B+": StuartContext::build; "+M+": bench")],
 ["output directory after each build"])
p("P16","Creating a project yields a complete buildable project or a clean failure",
 "Creating a new project either reports success and leaves a complete project that builds at once and carries the given name and author exactly, or reports failure with a failing status. It never touches anything that already exists, whatever the name, whatever git reports or fails to report, and whichever file operation fails.",
 ["inputs","fault_sequences"],
 "every legal project name and git identity (quotes, backslashes, non-ASCII), git missing or failing, existing targets, and a failure of any file operation",
 "Project creation has no tests.",
 [NEW,"stuart/src/config/git.rs"],[("creation order and error mapping",NEW+": new, extract"),("git identity",'stuart/src/config/git.rs: get_user_name, get_user_email, init_repository')],
 ["exit status, new directory, a following build"])
p("P17","Cleaning removes exactly the generated artefacts, or reports failure",
 "Cleaning a project removes the output directory, the plugin build directory and the exported metadata file and nothing else, and reports success only if all of them are gone. Outside a project it removes nothing and fails; if any file operation fails it either still ends with everything generated gone or reports failure.",
 ["fault_sequences","inputs","crash_points"],
 "every tree of generated artefacts including symbolic links leading elsewhere, and every failing file operation or kill point",
 "Cleaning has no tests.",
 [M],[("clean",M+": clean")],
 ["exit status and remaining tree"])
p("P18","A plugin loads from its first working source or the command stops cleanly",
 "For each declared dependency the listed sources are tried in order until one loads, and functions of a plugin that loaded work in templates; if no source of some dependency works the command fails with an error before any script runs or any output is touched. Failures, truncation or resets while fetching from git, cargo or the network make that source fail and the next one be tried, and never hang or crash the command.",
 ["fault_sequences","configurations","histories"],
 "every list of sources and every outcome of each fetch step: missing file, failing or unstartable git or cargo, refused, reset, truncated or fragmented download, unloadable library",
 "Tests load only local JavaScript files that exist; no fetch step is ever made to fail.",
 [PL,PS,"stuart/src/config/git.rs"],[("source fallback",PL+": load, load_from_source"),("fetch helpers",PS+": download_plugin, build_cargo_project, find_cargo_project")],
 ["exit status, commands run, output"])
p("P19","The same sources always give the same site",
 "Two builds of the same sources with the same settings produce byte-identical output and exported metadata, whatever order the file system lists directory entries in, and whatever the clock, process id, random seeds or previous output were. This includes loops over a directory of pages and ties in sorted loops.",
 ["schedules","inputs","configurations"],
 "every listing order of every directory, clock value, hash seed and process identity, for every project",
 "Tests run on one file system in one listing order and never compare two builds.",
 [FS,FOR,LIB],[("tree construction",FS+": create_from_dir"),("loop order",FOR+": ForFunction::execute")],
 ["output trees and metadata of two builds of one project"])
p("N01","Template and markdown syntax errors point at the right line and column",
 "For every malformed template, markdown or data file, the reported file, line and column are those of the offending token.",
 ["inputs"],"every malformed source text","Tests cover only well-formed templates.",
 ["stuart-core/src/parse/mod.rs","stuart-core/src/parse/parser.rs",ER],[("location tracking","stuart-core/src/parse/parser.rs: Parser::next")])
p("N02","Date formatting, excerpts and reading times follow their definitions",
 "For every input value, the formatted date, the excerpt and the reading time are those their documentation defines.",
 ["inputs"],"every input string, date notation and length argument","Tests cover a handful of values.",
 ["stuart-core/src/functions/parsers/dateformat.rs","stuart-core/src/functions/parsers/excerpt.rs","stuart-core/src/functions/parsers/timetoread.rs"],[("functions","stuart-core/src/functions/parsers")])
p("N03","JavaScript plugin functions see and return template values faithfully",
 "Values passed to and returned from JavaScript plugin functions survive conversion unchanged, and plugins cannot observe each other's state.",
 ["inputs","programs"],"every value and plugin program","Two fixed plugin projects are tested.",
 ["stuart/src/plugins/js/mod.rs","stuart/src/plugins/js/json.rs"],[("conversion","stuart/src/plugins/js/json.rs")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
