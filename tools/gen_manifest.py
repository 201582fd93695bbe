#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "deterministic simulation, seeded search over "
CHECKS = {
 "C01": ("schedules, network loss/duplication/reordering/delay/partitions and node crashes of a sampling network", "Seeded runs of a simulated sampling network (publisher, recovering nodes, re-publication) over the real library; every recovery compared byte for byte with an independent model that knows the secret of the trusted setup."),
 "C02": ("corrupting networks and adversarial peers feeding recovery", "Every recovery of corrupted, mixed, mislabelled or malformed inputs is held against an independent decoder (Lagrange interpolation over all cosets); both wrong acceptance and wrong rejection are detected."),
 "C03": ("network reorderings, batchings and repetitions of genuine tuples", "Every batch of genuine tuples must be accepted; genuineness is decided in the exponent, without pairings, by a model that knows the secret."),
 "C04": ("byzantine peers and coordinated forgeries with knowledge of the transcript", "Truth of each tuple is decided in the exponent; coordinated attacks cancel errors under weights predictable from incomplete transcripts, constant or equal weights. Forgeries against the complete transcript (a broken hash) are out of reach."),
 "C05": ("thread interleavings of concurrent callers, pool workers and other contexts", "Preemption at basic blocks, memory accesses (hot-address sampling), and every synchronisation call, on one kernel thread; sequentially consistent memory only."),
 "C06": ("deployments (pool sizes, widths, CPU counts, single- and multi-threaded builds, hash seeds) and schedules", "All deployments are compared with one model, hence with each other; widths up to 10."),
 "C07": ("hostile inputs and histories of failing and succeeding calls", "Every call must return without panicking and with the model's answer, at every point of generated histories."),
 "C08": ("C callers' histories, thread interleavings and allocator observation at the C boundary", "Real cdylib functions; guard pages and canaries around every buffer, read-only inputs, exact live-allocation accounting."),
 "C09": ("schedules, stalls, nested pools, concurrent construction and teardown", "Deadlock is detected exactly (no runnable thread and no timer), non-termination by a step bound; worker threads are counted after every run."),
 "C10": ("refused thread creations and memory allocations at every reachable point", "Faults are injected at numbered thread creations and allocations; afterwards existing contexts must answer correctly and new ones must build."),
 "C11": ("storage faults on the trusted-setup file (torn rewrites, lost and misdirected sectors, bit rot, truncation, damaged elements)", "Whatever loads must be exactly what the file holds, all points valid, and artefacts are recomputed in the exponent from the stored points, also for setups that are not powers of one secret; the built-in setup is compared with a recorded digest."),
 "C12": ("JVM failures at every JNI call, hostile arguments, schedules", "Real JNI entry points run against a simulated JVM (heap, local references, pending exceptions, JNI call rules) with failures injected at chosen JNI calls; the real Java classes run in a JVM against a stand-in native library, threads under a seeded baton scheduler."),
    "C13": ("garbage collections and finalizer runs at every point of concurrent Go callers' histories, native errors", "The real Go binding, runtime, collector and cgo run under a seeded scheduler that decides which goroutine goes on and where collections happen; the native library behind it is a stand-in (the real one is checked by C08)."),
    "C14": ("interleavings of asynchronous Node calls, worker threads, garbage collections and hostile arguments", "The real Node addon code (napi-rs, tokio runtime) runs under the simulated scheduler against a stand-in Node-API; JavaScript, its event loop, threadsafe functions and garbage collection are simulated."),
    "C16": ("interleavings of callers sharing building-block objects, erasure and corruption patterns, sizes and degenerate values", "Every public building-block function is compared with plain field arithmetic on points of known exponents; documented preconditions are kept (no cancelling points for the batch addition and the precomputed MSM)."),
}
NA = json.load(open(os.path.join(os.path.dirname(__file__), "na.json")))
LEVEL = {"C12": "fault_enumeration"}
def main():
    import re
    m = {"version": 1, "setup_cmd": "sim/build.sh mt && sim/build.sh st && sim/build.sh blk && sim/build.sh blkst",
         "hooks": {"guard": "none", "enable": "no hooks: the simulator instruments the unmodified sources at compile time (RUSTC_WRAPPER adds sanitizer-coverage callbacks) and interposes libc", "source_commits": []},
         "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k not in CHECKS]}
    for k, (t, note) in CHECKS.items():
        m["checks"].append({"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"./check {k} --tier thorough", "evidence_file": f"evidence/{k}.json",
                            "technique": T + t, "level": LEVEL.get(k, "exploration"), "level_note": note + " Trusts blstrs field and group arithmetic and the simulator; a seeded search, not exhaustive."})
    p = os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json")
    json.dump(m, open(p, "w"), indent=1)
if __name__ == "__main__":
    main()
