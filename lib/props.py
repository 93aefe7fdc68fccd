"""What each property's check runs."""

# crates compiled from /repo's sources (rebuilt when the content of /repo changes)
DERIVED = {"analyzer-abstractions", "rpc", "analyzer-core", "analyzer-host", "p4-analyzer", "p4-main", "lsif-main", "p4-analyzer-wasm"}

ABS_REAL = ["analyzer-abstractions (whole crate, from /repo)", "event-listener 2.5.3, async-channel, async-rwlock, async-mutex, cancellation (vendored source)"]
SIM_STUB = ["std::sync, std::thread, std::time (simulated scheduler and clock)", "concurrent-queue (a queue with the same interface)"]
HOST_REAL = ["analyzer-abstractions, analyzer-core, analyzer-host (whole crates, from /repo): protocol machine, request manager, work pool, "
             "workspaces, files, background loading, lexer, preprocessor, completion",
             "NativeFs of p4-analyzer (from /repo), in the runs that use it",
             "event-listener 2.5.3, async-channel, async-rwlock, async-mutex, cancellation (vendored source); tracing, tokio::sync, serde_json, logos"]
HOST_STUB = SIM_STUB + ["salsa (a memoising database with the same macros and semantics)", "std::fs, glob (a simulated disk)", "the tokio runtime",
                        "the LSP client (simulated)", "client and slow file systems, in the runs that use them"]


def host(quick=30, thorough=600, **kw):
    return dict(engine="rust", package="h-host", quick=quick, thorough=thorough, real=HOST_REAL, stub=HOST_STUB, **kw)


PROC_REAL = ["p4-analyzer: main, the lsp server command, Driver, NativeFs, logging set-up (whole crate, from /repo)",
             "analyzer-abstractions, analyzer-core, analyzer-host (whole crates, from /repo)",
             "std BufReader/LineWriter over the standard streams; async-channel, cancellation (vendored source); tracing-subscriber, serde_json"]
PROC_STUB = SIM_STUB + ["salsa (a memoising database with the same macros and semantics)", "standard streams, signals, process exit, std::fs, glob, arguments (simulated)",
                        "the tokio and async-std runtimes", "tracing-appender (writes without its worker thread)", "xflags (a parser for the declared flags)", "the LSP client (simulated)"]


def proc(quick=30, thorough=600, real=PROC_REAL, stub=PROC_STUB, **kw):
    return dict(engine="rust", package="h-proc", quick=quick, thorough=thorough, real=real, stub=stub, **kw)


PROPS = {
    "C01": dict(engine="rust", package="h-abs", quick=25, thorough=600, real=ABS_REAL, stub=SIM_STUB),
    "C02": dict(engine="rust", package="h-abs", quick=25, thorough=600, real=ABS_REAL, stub=SIM_STUB),
    "C03": dict(engine="rust", package="h-abs", quick=30, thorough=600, real=ABS_REAL, stub=SIM_STUB),
    "C04": dict(engine="rust", package="h-rpc", quick=30, thorough=600,
                real=["analyzer-host json_rpc module (from /repo)", "serde, serde_json, std BufReader/BufWriter/LineWriter"],
                stub=["the byte pipe between the peers", "std::sync, std::thread, std::time (simulated scheduler and clock)"]),
    "C06": host(),
    "C07": host(),
    "C08": host(),
    "C09": host(),
    "C10": host(),
    "C11": host(),
    "C14": host(),
    "C15": host(),
    "C17": host(),
    "C12": proc(quick=40),
    "C13": proc(real=["BufferStruct and Driver of p4-analyzer (from /repo)", "analyzer-host json_rpc", "async-channel, async-std interfaces"],
                stub=SIM_STUB + ["async-std (tasks and timers on the simulated scheduler)", "the tool and the host on both sides"]),
    "C16": dict(engine="rust", package="h-lsif", quick=30, thorough=600,
                real=["lsif-p4 (whole crate, from /repo): main, generator, writer", "BufferStruct, Driver and NativeFs of p4-analyzer; analyzer-host, analyzer-core, analyzer-abstractions (from /repo)",
                      "tokio::join, async-channel, cancellation (vendored source), serde_json, url"],
                stub=SIM_STUB + ["salsa (a memoising database with the same macros and semantics)", "std::fs, glob, arguments, process exit (simulated)", "the tokio and async-std runtimes",
                                 "lsp-types 0.93 in the place of 0.94", "xflags (a parser for the declared flags)"]),
    "C18": proc(quick=25, real=["NativeFs of p4-analyzer (from /repo)", "url"], stub=SIM_STUB + ["std::fs, tokio::fs, glob 0.3.1 (a simulated disk)"]),
    "C19": dict(engine="rust", package="h-doc", quick=25, thorough=600, real=["parser module of analyzer-core (from /repo)"],
                stub=["the editor and the grammars (generated)"]),
    "C05": dict(engine="node", script="ts/adapter.mjs", quick=30, thorough=600,
                real=["packages/p4-analyzer/src: index.ts and server/index.ts (from /repo, types removed by esbuild)", "Node's streams, buffers and promises"],
                stub=["standard streams, setImmediate, timers, signals and process exit (simulated)", "the WebAssembly module and the client"]),
    "C21": dict(engine="node", script="ts/extension.mjs", quick=20, thorough=600,
                real=["packages/p4-analyzer-vscode/src: index.ts, configuration.ts and extensions/LanguageClient.ts (from /repo, types removed by esbuild)", "Node's promises"],
                stub=["the API of Visual Studio Code and vscode-languageclient", "the editor's workspace, the disk and the language server (simulated)"]),
    "C22": dict(engine="node", script="ts/version.mjs", quick=20, thorough=600,
                real=["tools/src: version.ts, jsonUtils.ts and tomlUtils.ts (from /repo, types removed by esbuild)", "Node's promises"],
                stub=["git and the shell (a simulated checkout)", "the disk (simulated)", "@nrwl/devkit, @iarna/toml (the functions used, over the simulated disk)"]),
    "C20": dict(engine="rust", package="h-wasm", quick=25, thorough=600,
                real=["p4-analyzer-wasm (whole crate, from /repo)", "analyzer-abstractions, analyzer-core, analyzer-host (whole crates, from /repo)", "the tracing layer of the LSP client; async-channel, cancellation (vendored source)"],
                stub=SIM_STUB + ["salsa (a memoising database with the same macros and semantics)", "wasm-bindgen, js-sys (values without a JavaScript host), the event loop", "the LSP client and its files (simulated)"]),
}
