#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded schedules and faults over the real code, minimised replay files"
FX = "crates/analyzer-abstractions/src/futures_extensions"
FCS = "crates/analyzer-abstractions/src/futures_extensions.rs"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], note=note, na=na, tech=tech))


prop("C01", "A one-shot completion reaches every waiter",
     "Once a one-shot completion source has been completed, with a value or with an error, every task awaiting it on any thread, including one that starts to wait while the completion is happening and one that starts afterwards, resumes with exactly that result. No waiter stays suspended for ever, and a waiter that gives up does not take the wake-up of another.",
     ["schedules", "histories"],
     "all interleavings of any number of waiting tasks on several threads, some abandoned part-way, with one or more completing threads",
     "The unit tests have one thread and no waiter that is between checking and registering when the completion arrives.",
     [FCS],
     [("state under an async reader-writer lock; event notified after the state was written; listener registered before the state is checked", FCS)],
     note="Searches interleavings at every lock, atomic and queue operation of the real code of analyzer-abstractions and of the synchronisation crates it uses; sequentially consistent memory; sampled, not exhaustive.")
prop("C02", "A one-shot completion source is completed exactly once",
     "Of any number of concurrent attempts to complete a one-shot completion source exactly one is accepted and every other is told that it came too late. From then on every observer and every waiter sees the accepted result, and it never changes or reverts to pending.",
     ["schedules", "histories"],
     "all interleavings of concurrent completing, observing and waiting threads, each with one or several attempts",
     "The unit tests complete from one thread, where a check followed by a write cannot be torn apart.",
     [FCS],
     [("the state is checked and replaced under one write lock", FCS)],
     note="As C01.")
prop("C03", "The background work pool runs every item to completion and stops cleanly",
     "Every item of background work spawned before the pool is stopped is polled until it is done, is resumed after every wake-up from any thread, is never polled concurrently and never after it is done. Stopping or cancelling the pool makes it return within bounded time, and afterwards neither spawning, nor waking, nor completing what abandoned work was waiting for blocks or crashes the thread that does it.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of the pool's loop with spawning and waking threads, work that spawns work, wake-ups during a poll, duplicate wake-ups, and stop or cancellation at any point",
     "The unit tests run a handful of work items that are woken by the pool's own thread, and never stop it while work is suspended.",
     [f"{FX}/async_extensions.rs"],
     [("work channel, a wake re-queues the work; suspended work is owned by the pool until it is done or the pool stops", f"{FX}/async_extensions.rs")],
     note="As C01; async-channel and event-listener run as real code, concurrent-queue is replaced by a queue with the same interface.")
prop("C04", "Message framing survives any transport behaviour",
     "Whatever way the transport fragments, delays or interrupts reads and writes, the messages decoded on one side are exactly those written on the other, in order, each available as soon as its last byte has arrived, and a clean end of stream is told apart from a failure. A truncated, malformed or failing stream yields an error or the end, never a message that was not sent, never a crash, and it does not affect the messages before it nor, where only a payload is bad, the one after it.",
     ["inputs", "fault_sequences", "schedules"],
     "all message sequences (any JSON payload, any identifiers), all fragmentations, short and interrupted reads and writes, truncation or failure at any byte, malformed headers and payloads",
     "No test reads or writes a frame through anything but a complete in-memory buffer; short reads, interruptions, cuts at each byte and hostile headers are not sampled at all.",
     ["crates/analyzer-host/src/json_rpc.rs", "crates/analyzer-host/src/json_rpc/message.rs"],
     [("Content-Length framing over buffered reader and writer", "crates/analyzer-host/src/json_rpc.rs")],
     note="The real module over a simulated byte pipe between two simulated threads; compared with an independent decoder; sampled.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none: no hooks were needed; the harness crates compile /repo's sources against replacements of std, tokio, async-std and salsa",
              "enable": "cargo build in /verif/sim (derived manifests in sim/crates whose [lib] path points into /repo)", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"] or TECH, "level": "exploration", "level_note": p["note"]}
               for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "Replay a finding with the command in its file's \"harness\" member: <harness> replay <file> [--log]. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
