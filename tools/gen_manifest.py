"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SINK = "deterministic simulation with fault injection: seeded search over simulated output devices and event sources around the real renderer"
T = {
 "C01": SINK + " (short writes, EINTR)",
 "C02": SINK + " (device errors at every write and byte)",
 "C03": SINK + " (histories of failed, panicked and abandoned documents on one renderer)",
 "C04": SINK + " (watched, pausing and ending sources)",
 "C05": "deterministic simulation with fault injection: seeded search over partitions of the event stream into calls and sinks",
 "C06": "deterministic simulation: seeded search over operation histories of suspended, cloned and moved parsers against an undisturbed reference",
 "C07": "deterministic simulation with fault injection: seeded thread scheduler with preemption at every allocation, against sessions run alone in pristine processes",
 "C08": "deterministic simulation: seeded search over simulated environments (hash seeds, clock, getenv, heap, stack, map type), differential",
 "C09": "deterministic simulation with fault injection: the real command on a simulated operating system, crash and error at any system call",
 "C10": "deterministic simulation with fault injection: the real command on a simulated operating system, input errors, invalid bytes and kills",
 "C11": "deterministic simulation with fault injection: the real command on a simulated operating system, arrival of input against the library's result",
 "C12": "deterministic simulation with fault injection: simulated storage damages stored text (torn, lost, stale, flipped, repeated sectors)",
 "C13": "deterministic simulation: seeded producer-consumer schedules and event transformations, against direct rendering",
 "C14": "deterministic simulation with fault injection: simulated heap accounts live bytes over repeated faulty histories",
 "C15": "deterministic simulation with fault injection: simulated renderers with failures of their own between simulated event sources and devices",
 "C16": "deterministic simulation with fault injection: loss, repetition and reordering of events between the real parser and the real renderer",
 "C17": "deterministic simulation with fault injection: simulated heap refuses allocations in forked processes whose deliveries survive them",
 "C18": "deterministic simulation with fault injection: simulated storage loses, repeats, exchanges and tears parts of stored texts, against every part alone",
 "C19": "deterministic simulation with fault injection: seeded search over ways of working on threads whose stack is limited and watched",
}
NOTE = "Pseudo-random sampling of runs: no violation on any run explored with this seed; not exhaustive. Trusts the simulator (/verif/sim), rustc and std. Every violation is minimised and replays exactly from its file."
m = {"version": 1,
     "setup_cmd": "./build.sh sim twin plain cli",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam the simulator needs already exists (Write/Iterator arguments, global allocator, libc symbols). check.sh rebuilds library and command from /repo's working tree into /verif/target. Genuine defects found and repaired are listed in known-findings.txt."}
for p in P:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "A pure function of its input: no schedule, clock, I/O, fault or interleaving takes part in it, so there is nothing for a simulator to decide; input generation or proof would be another family of technique."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
