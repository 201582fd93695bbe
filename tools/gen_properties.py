#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

E = "eip7594/src/"
K = "cryptography/kzg_multi_open/src/"
RS = "cryptography/erasure_codes/src/reed_solomon.rs"

p("C01", "Any half of the published cells restores everything",
  "If at least 64 distinct genuine cells of a blob reach a node - whichever ones survived, in whatever order they arrived, "
  "however the losses fell - recovery succeeds and returns exactly the 128 cells and 128 proofs that the publisher computed for that blob. "
  "This holds for every blob, for nodes configured differently from the publisher, and when recovered artefacts are re-published and recovered again by other nodes.",
  ["inputs", "fault_sequences", "configurations"],
  "every valid blob, every set of 64..128 surviving cells, every arrival order, every pair of publisher/recoverer configurations, every chain of re-publication",
  "The tests recover a handful of consensus vectors and one random blob with a few hand-picked loss patterns; there are more than C(128,64) loss patterns and an unbounded set of blobs.",
  [E+"recovery.rs", E+"prover.rs", RS, K+"fk20/cosets.rs", K+"fk20/prover.rs", "cryptography/polynomial/src/coset_fft.rs"],
  [("recovery by vanishing polynomial over coset erasures", RS), ("cell ordering / bit reversal", K+"fk20/cosets.rs"), ("argument validation", E+"recovery.rs")],
  observe=["DASContext::recover_cells_and_kzg_proofs"])

p("C02", "Recovery never fabricates data",
  "Recovery returns Ok only when every supplied cell, at its index, is part of one and the same codeword of a blob, and then the returned cells contain each supplied cell unchanged at its index together with the proofs for that codeword. "
  "Every other input - corrupted, mixed between blobs, mislabelled, duplicated or out-of-range indices, non-canonical field elements, fewer than 64 or more than 128 cells, mismatched lengths - is reported as an error, never a panic or a made-up blob, regardless of the order in which the cells arrived.",
  ["inputs", "fault_sequences"],
  "every multiset of (index, cell) pairs, including all single and multiple corruptions of genuine sets",
  "Tests feed a few malformed vectors; they never corrupt cells beyond a canned sample, and never check that the returned cells agree with the inputs under arbitrary corruption.",
  [E+"recovery.rs", RS, E+"serialization.rs", E+"errors.rs"],
  [("index and count validation", E+"recovery.rs"), ("degree check on the recovered polynomial", RS), ("canonical scalar deserialisation", E+"serialization.rs")],
  observe=["DASContext::recover_cells_and_kzg_proofs"])

p("C03", "Genuine cells verify in every batch composition",
  "Every batch made only of genuine (commitment, cell index, cell, proof) tuples - whether computed or recovered, by any configuration - is accepted: any size including empty, any order, any mixture of blobs, any repetition of the same tuple. "
  "This includes degenerate blobs (all zero, constant, low degree) whose commitments or proofs are the point at infinity.",
  ["inputs", "histories", "configurations"],
  "every multiset and order of genuine tuples from any number of blobs and producing nodes",
  "Tests verify whole blobs in order and a few vectors; batch compositions (mixing, repetition, order, size) are unbounded.",
  [E+"verifier.rs", K+"fk20/verifier.rs", E+"serialization.rs"],
  [("commitment deduplication", E+"verifier.rs"), ("random linear combination and two-pairing check", K+"fk20/verifier.rs")],
  observe=["DASContext::verify_cell_kzg_proof_batch"])

p("C04", "A batch with any false or malformed member is rejected",
  "Batch verification accepts only if every tuple in the batch is individually true: a batch in which any cell, proof, commitment or index was corrupted, swapped, relabelled or forged in transit - including by adversaries who choose several members so that their errors cancel under weights they can predict - is not accepted. "
  "Well-formed but false batches are reported as an invalid proof, while malformed ones (length mismatch, index out of range, non-canonical field element, bytes that are not a group element of the right subgroup) are reported as an input error, never the other way round and never a panic.",
  ["inputs", "fault_sequences", "histories"],
  "every batch reachable from genuine tuples by transit faults and adversarial forging, at every batch size and position",
  "Tests contain a few bad tuples alone in a batch; they do not explore position, mixture, cancellation between members or which inputs the random weights must bind to.",
  [E+"verifier.rs", K+"fk20/verifier.rs", E+"serialization.rs", E+"errors.rs"],
  [("Fiat-Shamir challenge over all inputs", K+"fk20/verifier.rs"), ("subgroup-checked point decompression", E+"serialization.rs"), ("invalid-proof classification", E+"errors.rs")],
  observe=["DASContext::verify_cell_kzg_proof_batch", "Error::invalid_proof"])

p("C05", "Concurrent callers of one context get sequential answers",
  "A context may be used from any number of threads at once: under every interleaving of callers, pool workers and other contexts in the process, each call returns exactly what the same call returns when made alone, and the call's arguments are left untouched. "
  "No call observes partial work, buffers or verdicts of another.",
  ["schedules", "histories", "inputs"],
  "every interleaving of every set of concurrent calls on shared and separate contexts",
  "The tests call the library from one thread at a time and cannot choose the interleaving of its worker pools.",
  [E+"lib.rs", E+"macros.rs", "maybe_rayon/src/multi_threaded.rs", "cryptography/bls12_381/src/lincomb.rs", K+"fk20/batch_toeplitz.rs", "cryptography/bls12_381/src/fixed_base_msm.rs"],
  [("per-context pool, immutable precomputed tables", E+"lib.rs"), ("parallel iterators over MSM windows", K+"fk20/batch_toeplitz.rs")],
  state=[("DASContext", "pool + prover/verifier tables shared by callers", E+"lib.rs")],
  observe=["DASContext methods called from concurrent threads"])

p("C06", "Results never depend on how a node is deployed",
  "For the same trusted setup and input, every configuration - single- or multi-threaded build, thread count, precomputation width or none, number of CPUs, worker timing, hash seeding - produces byte-identical commitments, cells and proofs and the same verdicts. "
  "Those bytes are the ones the protocol defines: the commitment to the blob polynomial, its evaluations over the extended domain in protocol order, and for each cell the opening proof under that setup.",
  ["configurations", "schedules", "inputs"],
  "every pair of configurations, every schedule of their workers, every blob",
  "Tests run one default configuration per vector; nothing compares configurations over arbitrary blobs or under other schedules and CPU counts.",
  [E+"lib.rs", E+"prover.rs", K+"fk20/prover.rs", K+"fk20/batch_toeplitz.rs", K+"fk20/h_poly.rs", "cryptography/bls12_381/src/fixed_base_msm_window.rs", "cryptography/bls12_381/src/lincomb.rs", "maybe_rayon/src/lib.rs"],
  [("fixed-base MSM with and without precomputation", "cryptography/bls12_381/src/fixed_base_msm.rs"), ("FK20 proof computation", K+"fk20/prover.rs")],
  observe=["DASContext::blob_to_kzg_commitment", "DASContext::compute_cells_and_kzg_proofs"])

p("C07", "No peer input can crash, stall or poison a context",
  "Whatever bytes, counts and indices a peer supplies to commit, compute, recover or verify, the call returns (Ok or Err) without panicking, and a blob or cell is accepted exactly when all its field elements are canonical. "
  "After any history of failing and succeeding calls the context answers later calls exactly as a fresh context would.",
  ["inputs", "histories"],
  "every byte string of the fixed sizes, every vector length and index value, every history of calls",
  "Tests stop at the first error and never continue a history on the same context; malformed inputs are a fixed list.",
  [E+"lib.rs", E+"prover.rs", E+"recovery.rs", E+"verifier.rs", E+"serialization.rs", E+"errors.rs"],
  [("fallible deserialisation before use", E+"serialization.rs"), ("stateless contexts", E+"lib.rs")],
  observe=["all DASContext methods, over histories"])

C = "bindings/c/src/"
p("C08", "The C interface honours its memory and status contract",
  "Through the C functions, a successful call writes exactly the documented outputs and nothing else, an unsuccessful call leaves all outputs untouched and hands over one error string, inputs are never modified or read outside their documented extent, zero-length inputs may be null, and results and verdicts equal those of the Rust API. "
  "All memory the library allocates is returned once callers free contexts and error strings, over any history and interleaving of calls from several threads.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every call sequence, buffer placement (including back-to-back with unmapped or read-only pages), and interleaving of C callers",
  "Existing bindings tests call from managed code with oversized ordinary heap buffers; overreads, overwrites, partial writes on failure and leaks go unnoticed.",
  [C+"lib.rs", C+"pointer_utils.rs", C+"blob_to_kzg_commitment.rs", C+"compute_cells_and_kzg_proofs.rs", C+"recover_cells_and_kzg_proofs.rs", C+"verify_cells_and_kzg_proofs_batch.rs"],
  [("write outputs only after success", C+"recover_cells_and_kzg_proofs.rs"), ("ownership transfer of error strings", C+"lib.rs")],
  observe=["eth_kzg_* functions"])

p("C09", "Calls always complete: no deadlock, starvation or leaked workers",
  "Under every fair schedule every call on every context completes in a bounded number of scheduling steps, whatever other calls run concurrently, including contexts created, used and dropped concurrently, calls made from inside another thread pool's workers, pools of any size, and slow or temporarily stalled workers. "
  "Dropping the last handle of a context ends all its worker threads.",
  ["schedules", "histories", "configurations"],
  "every fair schedule of callers and workers, every nesting of pools, every create/use/drop history",
  "Tests use one long-lived context from one thread; a deadlock that needs a particular interleaving or nesting never shows.",
  [E+"lib.rs", E+"macros.rs", "maybe_rayon/src/multi_threaded.rs", "cryptography/bls12_381/src/lincomb.rs", K+"fk20/batch_toeplitz.rs"],
  [("work is installed into the context's own pool", E+"macros.rs")],
  observe=["completion of DASContext construction, calls and drop; worker thread count"])

p("C10", "Resource exhaustion never yields a wrong answer",
  "When the system refuses a thread or memory at any point, the affected construction or call fails visibly (error, panic or process abort) or completes correctly; it never returns wrong bytes or a wrong verdict. "
  "Contexts that already existed keep answering correctly, and once the resource is available again a new context can be built and works.",
  ["fault_sequences", "crash_points", "histories"],
  "every allocation and every thread creation as failure point, in every operation, followed by any history",
  "Tests never run under resource failures.",
  [E+"lib.rs", "cryptography/bls12_381/src/lincomb.rs", "maybe_rayon/src/multi_threaded.rs"],
  [("pool built once per context, failing construction", E+"lib.rs")],
  observe=["DASContext construction and calls under injected thread-creation and allocation failures"])

p("C11", "Checked trusted-setup loading rejects damaged files",
  "Loading a stored trusted setup through the checked loader fails fast unless every curve point the library will use is a correctly encoded member of the right subgroup; truncated, torn, bit-flipped or reordered-field files are either rejected or loaded as precisely the points that were stored. "
  "A setup that loads yields a context whose artefacts are those of exactly that setup, and the built-in setup is byte-for-byte the mainnet ceremony output.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point and every damaged byte of a setup file, every well-formed setup",
  "The tests load only the intact embedded setup.",
  [E+"trusted_setup.rs", "eip7594/data/trusted_setup_4096.json", "cryptography/bls12_381/src/lib.rs", K+"commit_key.rs", K+"verification_key.rs"],
  [("subgroup-checked decompression of all points", E+"trusted_setup.rs")],
  observe=["TrustedSetup::from_json, from_json_unchecked, Default"])

p("C12", "The Java binding reports every outcome exactly once and correctly",
  "Every native method called from Java either returns the same bytes or verdict as the core library or leaves exactly one exception pending and returns null/false; wrong-sized arrays, negative or huge indices, and JVM-side failures (allocation refused, exceptions raised by JVM calls) at any step surface as an exception, never as a wrong result, crash of the process or use of a half-built object. "
  "Data of the Java caller is never modified.",
  ["inputs", "fault_sequences", "histories"],
  "every argument shape and every JVM call as failure point",
  "The Java tests run the consensus vectors on a healthy JVM; no JVM call ever fails there.",
  ["bindings/java/rust_code/src/lib.rs", "bindings/java/rust_code/src/errors.rs"],
  [("error conversion to a thrown exception", "bindings/java/rust_code/src/lib.rs")],
  observe=["Java_ethereum_cryptography_LibEthKZG_* functions against a simulated JVM"])

p("C13", "The Go binding surfaces failures and keeps its context alive",
  "Each Go call returns the library's bytes with a nil error exactly when the library succeeded, and otherwise a non-nil error with the library's message memory released. "
  "Garbage collection and finalizers running at any moment, including while a call is inside the library and the caller holds no other reference, never free the context in use, and each context is freed exactly once after its last use.",
  ["schedules", "fault_sequences", "inputs"],
  "every instant at which collection and finalizers may run, every library outcome",
  "The Go test makes one valid call; collection never coincides with it and failures are never injected.",
  ["bindings/golang/prover.go"],
  [("finalizer frees the native context", "bindings/golang/prover.go")],
  observe=["BlobToKZGCommitment, NewProverContext against an instrumented C library"])

p("C14", "The Node binding maps every outcome to the right value or exception",
  "Synchronous and asynchronous Node calls resolve to the library's bytes or verdict, or reject/throw with an error, in any interleaving of async calls with each other, with JavaScript continuing to run, and with the context object being collected; no call argument - negative or oversized BigInt indices, wrong-sized arrays - aborts the process or is silently taken as a different value.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of async completions and collections, every argument value",
  "The jest tests await one call at a time on valid vectors.",
  ["bindings/node/src/lib.rs"],
  [("BigInt to u64 conversion", "bindings/node/src/lib.rs"), ("async wrappers over shared context", "bindings/node/src/lib.rs")],
  observe=["DASContextJs methods, through Node-API"])

p("C15", "The C# and Nim bindings are memory-safe and faithful",
  "Every C# and Nim call returns the library's bytes or verdict or raises, and no buffer handed to native code is moved or released by the managed runtime while native code uses it.",
  ["schedules", "inputs"],
  "every instant at which the managed runtime may collect or move objects",
  "Collections never coincide with the calls the tests make.",
  ["bindings/csharp/csharp_code/EthKZG.bindings/ethkzg.cs", "bindings/nim/nim_code/nim_eth_kzg/nim_eth_kzg.nim"],
  [("pinning of managed buffers", "bindings/csharp/csharp_code/EthKZG.bindings/ethkzg.cs")],
  observe=["managed API"])

p("C16", "The building-block crates compute what their names say, at every size",
  "The public functions of the lower crates - multi-scalar multiplication (variable and fixed base, with and without precomputation), batched point addition and inversion, FFTs over fields, cosets and groups, polynomial arithmetic, erasure encoding and decoding, commitments, multi-opening proofs and their verification - return the mathematically defined value (or the documented refusal) for every input that respects their documented preconditions, at every size and parameter, however many callers share one object, and never panic on such input.",
  ["inputs", "schedules", "fault_sequences"],
  "all sizes and parameters (not only those of PeerDAS), all degenerate values (zeros, equal or cancelling points, the identity, empty inputs), all erasure and corruption patterns, all interleavings of callers sharing an object",
  "Unit tests use a few random samples per primitive at one or two sizes, one caller at a time; the library above uses one parameter set only.",
  ["cryptography/bls12_381/src", "cryptography/polynomial/src", "cryptography/erasure_codes/src/reed_solomon.rs", K],
  [("multi-scalar multiplication", "cryptography/bls12_381/src/lincomb.rs"),
   ("precomputed multi-scalar multiplication", "cryptography/bls12_381/src/fixed_base_msm_window.rs"),
   ("batched additions", "cryptography/bls12_381/src/batch_addition.rs"),
   ("FFTs", "cryptography/polynomial/src/domain.rs"),
   ("erasure decoding", "cryptography/erasure_codes/src/reed_solomon.rs"),
   ("multi-opening proofs", K+"fk20/prover.rs")],
  observe=["crate-level functions"])

p("C17", "The batching challenge is cryptographically unpredictable",
  "No efficient adversary can find a batch that is false and is accepted: the batching weights behave as random values fixed only after all batch contents are.",
  ["inputs"],
  "all efficient adversaries",
  "A computational-hardness statement; no test or finite exploration settles it.",
  [K+"fk20/verifier.rs"],
  [("hash of the whole batch with domain separator", K+"fk20/verifier.rs")],
  observe=["DASContext::verify_cell_kzg_proof_batch"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
