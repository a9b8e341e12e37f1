#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
done = sys.argv[1:] or subprocess.run(
    [os.path.join(here, "harness/target/debug/zsim"), "list"], capture_output=True, text=True, check=True
).stdout.split()
NA = {
    "C22": "Pure function of six integers: no concurrency, time, I/O, fault or multi-party behaviour for a simulator to decide. (Round trips of generated date-times are still compared inside the simulated archives of C02 and C20.)",
    "C23": "Pure string function of its argument: nothing a simulated schedule or fault could influence. (The names of simulated trees are still compared in C17.)",
}
NOTE = ("Seeded search over schedules, faults and inputs of the real code in one process: every run is one exactly repeatable "
        "choice tape, a clean batch is strong evidence within the stated generators and bounds, not proof. ")
EXTRA = {
    "C17": "File system operations are the real ones in a scratch directory, scheduled through a seam in a vendored copy of tokio::fs; kernel behaviour is trusted.",
    "C18": "File system operations are the real ones in a scratch directory, scheduled and failed through a seam in a vendored copy of tokio::fs; kernel behaviour is trusted.",
    "C14": "The responder runs for real with actix-web's HttpRequest/HttpResponse types; sockets and the HTTP/1.1 writer of actix are outside.",
    "C15": "The responder runs for real with actix-web's HttpRequest/HttpResponse types; sockets and the HTTP/1.1 writer of actix are outside.",
    "C21": "Memory is measured by a counting global allocator inside the simulation; the bound is a constant chosen from the code's fixed buffers with slack.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in done:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": NOTE + EXTRA.get(i, "Data sources, executor, wakers and clock are simulated; everything of zippity is real."),
        })
    else:
        na.append({"property": i, "reason": "Its scenario is not built yet."})
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "No hook is needed in /repo: EntryData, AsyncRead/AsyncSeek/Stream, the Responder trait and the time converter are the seams; tokio::fs is replaced by a vendored copy with a seam (harness/vendor/tokio, src/fs/sim.rs) through [patch.crates-io] of the harness crate.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
