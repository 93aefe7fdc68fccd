H = "crates/analyzer-host/src"
HOSTNOTE = ("The whole host (protocol machine, request manager, pool, workspaces, files, lexer, preprocessor, completion) runs on simulated threads and time with a "
            "simulated client and disk; salsa, which cannot be had offline, is replaced by a memoising database with the same macros. Sampled, not exhaustive.")
prop("C06", "Requests to the client are answered exactly once, each by its own answer",
     "Every request that the server sends to the client carries an identifier that no other request of the session has, and is completed by the first answer with that identifier and by nothing else: whatever order, delay, duplication or error the client's answers come with, and whatever unknown identifiers are answered, an operation that waits for the client sees its own result or error. What the client reports about one file is never taken for another, and no answer that arrives is lost.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of concurrent server requests with reordered, delayed, duplicated, failed, ill-typed and unsolicited answers",
     "The tests send one request and answer it at once; several outstanding requests with answers out of order need a client that misbehaves on cue.",
     [f"{H}/lsp/request.rs", f"{H}/fs.rs", f"{H}/lib.rs"],
     [("identifiers from one counter; a map of outstanding requests to completion sources", f"{H}/lsp/request.rs")], note=HOSTNOTE)
prop("C07", "Every request gets exactly one response, in order, whatever is asked",
     "For any sequence of well-formed or malformed, known or unknown requests and notifications, over any document text and any file contents, each request is answered exactly once with its own identifier, in the order of the requests, with a result or with an error of the right kind; notifications and stray responses are never answered, and file events of unknown types are ignored; nothing the client sends and no document or file content makes the server crash or stop answering.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all message histories, including malformed parameters, hostile document texts and files, failing file reads, with any timing",
     "The tests exercise single handlers with valid parameters; no test runs hostile text or parameters through a running server.",
     [f"{H}/lib.rs", f"{H}/lsp/dispatch.rs", f"{H}/lsp/dispatch_target.rs", "crates/analyzer-core/src/preprocessor.rs", "crates/analyzer-core/src/lexer.rs"],
     [("dispatch of a message to the state's handler; failed requests are answered with an error", f"{H}/lsp/dispatch.rs")], note=HOSTNOTE)
prop("C08", "The protocol lifecycle is enforced in every order of messages",
     "Before 'initialize' succeeds requests are refused as not initialized; between it and 'initialized' nothing else is served; afterwards requests are served and a second 'initialize' is refused; after 'shutdown' every request is refused as invalid and only 'exit' has an effect, after which nothing more is processed. A failed 'initialize' leaves the server uninitialized and starts nothing. Documents are taken in only while the server is active.",
     ["histories", "schedules"],
     "all orders and repetitions of lifecycle messages, valid and invalid, interleaved with requests and notifications",
     "The tests walk a few fixed paths through the protocol machine; the property is about every path.",
     [f"{H}/fsm.rs", f"{H}/lsp_impl/active_initialized.rs", f"{H}/lsp_impl/initializing.rs", f"{H}/lsp_impl/active_uninitialized.rs", f"{H}/lsp_impl/shutting_down.rs"],
     [("a state machine with one dispatch table for each state", f"{H}/fsm.rs")], note=HOSTNOTE)
prop("C09", "The server's copy of a document is the editor's text",
     "After any history of opening, incremental and full changes, saves and closing, what the server answers about a document is what it would answer for exactly the text the editor then shows: changes apply in order to the text as left by the previous one, to the positions the protocol defines, beyond the end of a line or of the text included, for any line endings, ranges and multi-byte text, whether or not the file is in a workspace folder, and whatever happens to the file on disk meanwhile. After closing, the file is as on disk. The server's capabilities ask the client for the notifications that this takes.",
     ["inputs", "histories", "schedules"],
     "all editing histories over several documents, all texts, interleaved with loads from disk and file events",
     "The tests apply a handful of fixed changes to fixed texts; position arithmetic at line ends and sequences of changes are what goes wrong elsewhere.",
     ["crates/analyzer-core/src/lsp_file.rs", f"{H}/lsp_impl/active_initialized.rs", f"{H}/lsp/workspace.rs"],
     [("lazily replayed changes against a table of line lengths", "crates/analyzer-core/src/lsp_file.rs")], note=HOSTNOTE)
prop("C10", "Open files win over the disk, closed files follow it",
     "Once things have settled, a file that is open in the editor is served as the editor has it and any other file as it is on disk, whatever the order and timing of loads, file events, edits, opening and closing: a slow or failing load never replaces newer contents, and the event that reports a change is never lost because a load was under way.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of background loads of any duration with editor and file events, failing reads, late, duplicated and spurious events",
     "No test has a load in flight while an event or an edit arrives; the order of completion is what the property is about.",
     [f"{H}/lsp/workspace.rs", f"{H}/lsp/analyzer.rs"],
     [("per-file compilation source; background loading on the pool", f"{H}/lsp/workspace.rs")], note=HOSTNOTE)
prop("C11", "The host always comes to an end",
     "When 'exit' arrives, when the session is cancelled, when the input ends or when the output is gone, at any moment and with whatever work, loads or requests outstanding, the host returns within bounded time and reports which of the two it was, and nothing panics or keeps running.",
     ["schedules", "fault_sequences"],
     "all moments at which a session can end, with any outstanding work and clients that never answer",
     "The tests end sessions that are idle.",
     [f"{H}/lib.rs", f"{H}/lsp/request.rs", f"{FX}/async_extensions.rs"],
     [("cancellation token joined with every receive; the pool stops with the host", f"{H}/lib.rs")], note=HOSTNOTE)
prop("C14", "Start-up indexes every workspace folder and reports it faithfully",
     "After 'initialized' with workspace folders the server registers for file events first, then loads every P4 file of every folder, unasked, so that each can be queried, without ever serving anything that is not on disk; progress is reported only under a token the client accepted, beginning once, with one report for each folder, and ending once. A client that refuses registration, progress or single files leaves the rest working.",
     ["schedules", "fault_sequences", "inputs"],
     "all folder layouts and names, slow or failing folder and file reads, clients that refuse progress or registration",
     "The tests have no disk and a client that accepts everything.",
     [f"{H}/lsp/workspace.rs", f"{H}/lsp/progress.rs", "crates/p4-analyzer/src/native_fs.rs"],
     [("indexing in a background task with a progress manager", f"{H}/lsp/workspace.rs")], note=HOSTNOTE)
prop("C15", "Trace messages follow the trace value",
     "With the trace value 'off' no trace notification is sent; with 'messages' each carries a message and no details; with 'verbose' each carries both, the file concerned among the details. A change of the value is in force for everything that is processed after it, invalid values change nothing, and tracing from within any thread of the server neither blocks nor recurses.",
     ["histories", "schedules"],
     "all sequences of trace values interleaved with traced work on several threads",
     "The tests change the value while nothing else runs.",
     [f"{H}/tracing.rs"], [("a tracing layer that turns events and spans into notifications", f"{H}/tracing.rs")], note=HOSTNOTE)
prop("C17", "Completion sees through includes as they are now",
     "Completions for a file are the words of its text with each included file in the place of its directive, each file once, only in active branches, with an included file as the editor has it if it is open and as on disk otherwise. Paths are relative to the file that includes, or URLs; missing files count as empty until they appear, and changes to included files show once they have been reported and loaded. Conditions (#if, #ifdef, #ifndef, #elif, #else) have the value that C gives them with the macros defined so far, in whichever file, each macro standing for the value of its replacement: decimal and hexadecimal numbers, all operators with their precedence, && and || not depending on what they need not evaluate, defined, names that are no macros as 0. Comments of any shape are not code, within directives either, and lines may be continued; a branch or a comment that does not end extends to the end of the file.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all include graphs over several folders, cyclic ones among them, all conditions and macro definitions, with files that are edited, created, changed, deleted, opened and closed meanwhile, on slow file systems",
     "The tests preprocess single buffers with fixed contents.",
     ["crates/analyzer-core/src/preprocessor.rs", "crates/analyzer-core/src/lib.rs", f"{H}/lsp/workspace.rs"],
     [("missing files are requested and the document is preprocessed again", f"{H}/lsp_impl/active_initialized.rs")], note=HOSTNOTE)
P4 = "crates/p4-analyzer/src"
prop("C12", "The server process ends with its session, and stdout is only the protocol",
     "Whatever ends the session ('exit', the end or failure of the input, an input that is not the protocol, an output that breaks, an interrupt), at whatever moment, with fragmented, interrupted or stalled streams, full or failing log disks and outstanding work, the process ends within bounded time, a second interrupt ending it at once; every request read has been answered in order if the output is intact, and all that is on stdout are well-formed messages. What the process logs is appended to the log file that it was asked for, from the level given on and nowhere else, and in trace messages as the client wants them; a log that cannot be written does not keep it from serving. Asked for its version, or given arguments that it does not know, it says so and ends without serving.",
     ["schedules", "fault_sequences", "crash_points"],
     "all moments and ways in which a session can end, with any stream behaviour and outstanding work",
     "No test starts the process; the ends of streams, signals and stalled clients are not within the reach of the unit tests.",
     [f"{P4}/main.rs", f"{P4}/driver.rs", f"{P4}/commands/lsp_server.rs"],
     [("one thread for each direction between the streams and the host's channels", f"{P4}/driver.rs"), ("the command joins host and driver", f"{P4}/commands/lsp_server.rs")],
     note="The real main runs against simulated standard streams, disk, signals and time. Sampled, not exhaustive.")
prop("C13", "The buffer driver delivers what was allowed, once and in order",
     "Each message a tool queues reaches the host exactly once and in order unless it was cleared, and only once reading it has been allowed; everything the host sends is returned once and in order. A call that waits returns once what it queued has been taken, or that many messages have come from the host, and not before. Clearing, allowing and adding while the driver reads never crash, lose or repeat a message, and the driver ends when it is cancelled or its channel is closed.",
     ["schedules", "histories"],
     "all interleavings of the tool's operations with the driver's threads",
     "The tests use the buffer driver as their own plumbing, one operation at a time.",
     [f"{P4}/driver/buffer_driver.rs", f"{P4}/driver.rs"],
     [("a queue with a counter of allowed reads", f"{P4}/driver/buffer_driver.rs")],
     note="Driver and BufferStruct run on the simulated scheduler between a simulated tool and host. Sampled, not exhaustive.")
prop("C18", "The native file system shows exactly the P4 files there are",
     "For any folder, whatever characters are in its path and in those of its files, the enumeration has each readable P4 file below it exactly once, and nothing else; contents are those on disk now, whatever the encoding; unreadable folders and files, failing reads and identifiers that are not files count as empty or missing, never crash, hide other files, or write to stdout.",
     ["inputs", "fault_sequences"],
     "all directory trees, names and contents, with failing and slow reads",
     "The tests list one folder with plain names on a disk that never fails.",
     [f"{P4}/native_fs.rs"],
     [("a glob pattern made of the folder's path and the file pattern", f"{P4}/native_fs.rs")],
     note="glob 0.3.1 is modelled over the simulated disk. Paths are UTF-8. Sampled, not exhaustive.")
prop("C19", "Incremental and from-scratch parsing agree",
     "After any sequence of edits and matches, what a Parser says about its tokens is what a Parser built from the resulting tokens says, and both are what the grammar means as a parsing expression grammar: the first alternative that matches, the longest repetition, lookahead that consumes nothing, and a match only of the whole input. A grammar is refused exactly when it has no 'start' or refers to a rule that it does not define. After an edit, a match looks again at the tokens that the edit can have affected, not at the whole of a long document.",
     ["inputs", "histories"], "all grammars without left recursion or repetition of something empty, all token sequences, all histories of edits and matches",
     "The tests follow one fixed sequence of edits of one small grammar; which remembered results an edit invalidates depends on how far earlier attempts looked ahead.",
     ["crates/analyzer-core/src/parser.rs"], [("memo table with the length examined by each entry", "crates/analyzer-core/src/parser.rs")],
     note="The histories of one document are simulated; there are no threads, clocks or faults in them. Grammars of up to 20 rules and texts of up to 60 tokens; what an edit costs is measured on documents of hundreds of statements, by the comparisons of tokens. Sampled, not exhaustive.")
prop("C16", "The LSIF dump describes the workspace, once",
     "For any workspace and header folders, nested, equal or with odd names and contents, the generator ends by itself; when it reports success the dump is complete: every line is one vertex or edge, identifiers are unique, edges refer to what came before, every readable P4 file of both folders is one document, and nothing is a document that is not a file of those folders. It never reports success for a dump it could not write. Without a header folder that is there, asked for its version, or given arguments that it does not know, it says so and writes nothing.",
     ["inputs", "schedules", "fault_sequences"],
     "all directory trees and contents, any timing of the threads that read and index, failing and full disks",
     "The generator has no tests; that the files are known before they are listed depends on the order in which four threads proceed.",
     ["crates/lsif-p4/src/lsif_generator.rs", "crates/lsif-p4/src/lsif_writer.rs", f"{P4}/driver/buffer_driver.rs", f"{H}/lsp/workspace.rs"],
     [("host, buffer driver and generator joined in one task", "crates/lsif-p4/src/lsif_generator.rs")],
     note="The real main runs on simulated threads, time and disk. lsp-types 0.93 stands in for 0.94, which cannot be had offline. Sampled, not exhaustive.")
prop("C05", "The Node adapter relays every message intact, once and in order",
     "Each message that arrives on stdin, however the bytes are divided into chunks (several messages or parts of one in a chunk, headers or multi-byte text cut anywhere), is passed to the WebAssembly module once it is complete, exactly once, in order and with exactly its bytes; each response is on stdout as one frame with its exact length, in order, and nothing else is. When the server ends or is interrupted the process stops waiting for input; a second interrupt ends it at once.",
     ["inputs", "schedules", "fault_sequences"],
     "all message contents, all divisions of the stream into chunks, any timing of the module, its responses, a slow stdout and interrupts",
     "There are no tests of the TypeScript packages; what arrives together depends on the timing of pipes.",
     ["packages/p4-analyzer/src/server/index.ts", "packages/p4-analyzer/src/index.ts"],
     [("a running buffer from which messages are taken when complete", "packages/p4-analyzer/src/server/index.ts")],
     note="The real TypeScript (types removed) runs in Node over simulated streams, immediates, signals and a simulated module. Sampled, not exhaustive.")
prop("C20", "The WebAssembly module serves a session and ends with it",
     "Between start and end the module accepts each well-formed message, refuses anything else with an error, and calls back with one well-formed JSON-RPC message at a time: every request is answered once, in order and correctly, including from files that the client reads for it, and traces come as the trace value asks for them. start() returns normally once 'exit' has been handled and every response delivered, and with an error when it is stopped, whatever is outstanding; afterwards messages are refused.",
     ["inputs", "schedules", "fault_sequences"],
     "all sessions, any timing of the client's answers on one event loop, failing and missing answers, stopping at any point",
     "There are no tests of the module; they would need a JavaScript host.",
     ["crates/p4-analyzer-wasm/src/lib.rs", "crates/p4-analyzer-wasm/src/buffer.rs", f"{H}/lib.rs", f"{H}/fs.rs"],
     [("host and response loop joined on one event loop", "crates/p4-analyzer-wasm/src/lib.rs")],
     note="The crate is compiled natively against stand-ins for wasm-bindgen and js-sys and runs on a simulated event loop. Sampled, not exhaustive.")
X = "packages/p4-analyzer-vscode/src"
prop("C21", "The VS Code extension gives the server its own folders and files",
     "Whatever folders the editor has open, and however requests of the server interleave with slow or failing reads and changes on disk, each request to enumerate a folder is answered with the identifiers of the matching files of that folder, each once, and no others, each request for contents with what the file contains, and what is unknown, missing or unreadable with an error of that request alone. Activating starts the configured server with its arguments over standard streams, ready to answer; what fails is shown and reported; deactivating stops it.",
     ["inputs", "schedules", "fault_sequences"],
     "all sets of workspace folders, nested ones among them, any names and contents, any timing and failure of searches and reads, all configurations",
     "There are no tests of the TypeScript packages; they would need the editor.",
     [f"{X}/index.ts", f"{X}/configuration.ts", f"{X}/extensions/LanguageClient.ts"],
     [("request handlers added to the language client before it is started", f"{X}/extensions/LanguageClient.ts")],
     note="The real TypeScript (types removed) runs in Node against stand-ins for the editor and the language client. Sampled, not exhaustive.")
prop("C22", "Packages get the version of the checkout, all of them or a reported failure",
     "Whatever the state of the checkout, the version executor either sets the version in every listed manifest (package.json or Cargo.toml) to the one version of the checkout, leaving everything else in them and on disk as it was, and only then reports success; or it reports the failure. The version is the tag of HEAD when that is a semantic version; otherwise the version in version.json, with the number of commits since it changed on a release branch, or with the commit on other branches and for local builds; 0.0.0 when version.json is not tracked or no version. A git command, a read or a write that fails, or a manifest that cannot be parsed, is never taken for success, never crashes the process and never damages another file.",
     ["inputs", "fault_sequences", "schedules"],
     "all tags, branches, versions, heights, options and lists of manifests; any git command, read or write failing, short writes; any timing of the asynchronous reads and writes",
     "There are no tests of the tools; they would need a repository in each state and a failing disk.",
     ["tools/src/version.ts", "tools/src/jsonUtils.ts", "tools/src/tomlUtils.ts"],
     [("manifests updated one after another, TOML ones asynchronously", "tools/src/version.ts")],
     note="The real TypeScript (types removed) runs in Node against a simulated git and disk; the parser of TOML is a stand-in. Not judged: branch names that merely start with the name of a release branch without a slash, and a failing git behind the pipe that counts commits. Sampled, not exhaustive.")
NA = "a pure function of its input: no schedule, clock, fault or interleaving takes part, so there is nothing for a simulator to decide"
prop("N02", "Lexing is lossless and total",
     "For every input text the lexer terminates, never crashes, and the texts of its lexemes concatenate to the input.",
     ["inputs"], "all texts", "The tests lex fixed snippets.",
     ["crates/analyzer-core/src/lexer.rs"], [("logos lexer", "crates/analyzer-core/src/lexer.rs")], na=NA)
